---- MODULE MergeTrace ----
EXTENDS SeqRun, Merge
====
