---- MODULE TaskSetTrace ----
EXTENDS Lin, TaskSet
====
