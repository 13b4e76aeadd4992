------------------------------ MODULE MCLocks ------------------------------
EXTENDS Locks
MCPrograms == IF Variant = "spin" THEN {<<"lock", "lock">>, <<"try", "lock">>, <<"try">>}
              ELSE {<<"lock">>, <<"lock", "shared">>, <<"shared", "try">>, <<"tryshared", "lock">>}
MCLivePrograms == IF Variant = "spin" THEN {<<"lock", "lock">>, <<"try">>}
              ELSE {<<"lock", "shared">>, <<"tryshared", "lock">>}
=============================================================================
