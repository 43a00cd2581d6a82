----------------------------- MODULE SessionMC ------------------------------
EXTENDS Session
Quota3 == <<2, 2, 2>>
Quota21 == <<2, 1>>
Quota111 == <<1, 1, 1>>
=============================================================================
