------------------------------ MODULE MCBuild ------------------------------
EXTENDS ClaraBuild, Json, IOUtils
CfgD == JsonDeserialize(IOEnv.BUILD_JSON)
JobsD == 1..Len(CfgD.prog)
ProgD == [i \in JobsD |-> CfgD.prog[i]]
NameD == [i \in JobsD |-> CfgD.name[i]]
DirD == [i \in JobsD |-> CfgD.dir[i]]
BadD == {CfgD.bad[j] : j \in 1..Len(CfgD.bad)}
(* the behaviours to replay: schedule and final outputs *)
Report == Ended => PrintT(<<"B", sched, [i \in JobsD |-> IF Target(i) \in DOMAIN out THEN out[Target(i)] ELSE 0]>>)
=============================================================================
