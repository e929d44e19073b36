---- MODULE SharedTrace ----
EXTENDS Lin, Shared
====
