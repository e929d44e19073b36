---- MODULE SinksTrace ----
EXTENDS SeqRun, Sinks
====
