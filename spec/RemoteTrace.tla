---- MODULE RemoteTrace ----
EXTENDS Lin, Remote
====
