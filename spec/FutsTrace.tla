---- MODULE FutsTrace ----
EXTENDS SeqRun, Futs
====
