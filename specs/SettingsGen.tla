----------------------------- MODULE SettingsGen ----------------------------
(* One test per transition of Settings.                                        *)
EXTENDS Settings, Json
Show == PrintT("@@" \o ToJson([log |-> log', it |-> Seen(it'), other |-> Seen(other'), rs |-> rs']))
=============================================================================
