---- MODULE MC_FileSave ----
EXTENDS FileSave
============================
