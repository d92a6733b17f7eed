---- MODULE MC_ScopedMap ----
EXTENDS ScopedMap
=============================
