---- MODULE IoTrace ----
EXTENDS SeqRun, Io
====
