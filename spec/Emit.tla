------------------------------- MODULE Emit --------------------------------
EXTENDS Sequences, TLC, Json
\* one line of machine-readable output per call; always TRUE
Emit(v) == PrintT("@@" \o ToJson(v))
=============================================================================
