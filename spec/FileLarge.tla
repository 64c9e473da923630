------------------------------ MODULE FileLarge -----------------------------
(* The reports over files with many messages. One step follows another, and  *)
(* a state is known by how far it is.                                        *)
EXTENDS FileReports
Where == <<t, next, pos, Len(out), ended>>
=============================================================================
