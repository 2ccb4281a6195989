------------------------------- MODULE Tides -------------------------------
(* Tides and flattening with one model per body: the model of the orbiting body  *)
(* decides how the force of a pair is computed, the model of the deformed body    *)
(* decides the torque on its spin.  A host with the Kaula model adds its own tide. *)
EXTENDS Kaula
TideForce(c, b, h, i) ==
    VAdd(CASE c[i].tides.model = "creep" -> CreepForce(c, b, h, i) [] c[i].tides.model = "ctl" -> CTLForce(c, b, h, i) [] OTHER -> Vec0,
         IF KaulaModel(c, i) \/ KaulaModel(c, h) THEN KaulaForce(c, b, h, i) ELSE Vec0)
TideForceScale(c, b, h, i) ==
    (CASE c[i].tides.model = "creep" -> CreepForceScale(c, b, h, i) [] c[i].tides.model = "ctl" -> CTLForceScale(c, b, h, i) [] OTHER -> Zero)
    (+) (IF KaulaModel(c, i) \/ KaulaModel(c, h) THEN KaulaForceScale(c, b, h, i) ELSE Zero)
TideOrbiting(c) == OrbitingSeq(c, "tides")
TidesTorque(c, b, h, i) == CASE c[i].tides.model = "creep" -> CreepTorque(c, b, h, i) [] c[i].tides.model = "kaula" -> KaulaTorque(c, b, h, i) [] OTHER -> CTLTorque(c, b, h, i)
TidesTorqueScale(c, b, h, i) == CASE c[i].tides.model = "creep" -> CreepTorqueScale(c, b, h, i) [] c[i].tides.model = "kaula" -> KaulaTorqueScale(c, b, h, i) [] OTHER -> CTLTorqueScale(c, b, h, i)
RotForce(c, b, h, i) == IF c[i].flat.model = "creep" THEN CreepFlatForce(c, b, h, i) ELSE FlatForce(c, b, h, i)
RotForceScale(c, b, h, i) == IF c[i].flat.model = "creep" THEN CreepFlatForceScale(c, b, h, i) ELSE FlatForceScale(c, b, h, i)
RotOrbiting(c) == OrbitingSeq(c, "flat")
(* the figure of a creeping body stays aligned: its flattening exerts no torque *)
RotTorque(c, b, h, i) == FlatTorque(c, b, h, i)
RotTorqueScale(c, b, h, i) == FlatTorqueScale(c, b, h, i)
=============================================================================
