// The printing half of rapidXML which Boost leaves out: elements, attributes and text, unindented, without expanding entities.
#pragma once
#include "rapidxml.hpp"
namespace boost { namespace property_tree { namespace detail { namespace rapidxml {
template <class Out> void put_xml(Out &out, const char *p, std::size_t n) { for (; n; --n) { *out = *p++; ++out; } }
template <class Out> void put_xml(Out &out, const char *p) { put_xml(out, p, std::strlen(p)); }
template <class Out> Out print(Out out, const xml_node<> &n, int) {
  switch (n.type()) {
  case node_document: for (xml_node<> *k = n.first_node(); k; k = k->next_sibling()) out = print(out, *k, 0); break;
  case node_data: case node_cdata: put_xml(out, n.value(), n.value_size()); break;
  case node_element:
    put_xml(out, "<"); put_xml(out, n.name(), n.name_size());
    for (xml_attribute<> *a = n.first_attribute(); a; a = a->next_attribute()) { put_xml(out, " "); put_xml(out, a->name(), a->name_size()); put_xml(out, "=\""); put_xml(out, a->value(), a->value_size()); put_xml(out, "\""); }
    if (!n.first_node() && !n.value_size()) { put_xml(out, "/>"); break; }
    put_xml(out, ">");
    if (!n.first_node()) put_xml(out, n.value(), n.value_size());
    for (xml_node<> *k = n.first_node(); k; k = k->next_sibling()) out = print(out, *k, 0);
    put_xml(out, "</"); put_xml(out, n.name(), n.name_size()); put_xml(out, ">"); break;
  default: break;
  }
  return out; }
inline std::ostream &print(std::ostream &os, const xml_node<> &n, int) { print(std::ostream_iterator<char>(os), n, 0); return os; }
}}}}
