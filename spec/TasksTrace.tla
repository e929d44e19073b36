---- MODULE TasksTrace ----
EXTENDS SeqRun, Tasks
====
