---- MODULE FlatTrace ----
EXTENDS Lin, Flat
====
