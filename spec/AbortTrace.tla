---- MODULE AbortTrace ----
EXTENDS Lin, Abort
====
