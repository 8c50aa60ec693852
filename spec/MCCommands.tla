----------------------------- MODULE MCCommands -----------------------------
EXTENDS Commands
\* which command led here does not matter for what can follow; the properties are about every step
Folder == <<files, dirs>>
=============================================================================
