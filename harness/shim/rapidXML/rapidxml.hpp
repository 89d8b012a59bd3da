// stator/xml.hpp includes rapidXML, which is not part of stator's tree; Boost ships the same library under another namespace.
#pragma once
#include <sstream>
#include <cstring>
#include <iterator>
#include <boost/property_tree/detail/rapidxml.hpp>
namespace rapidxml = boost::property_tree::detail::rapidxml;
