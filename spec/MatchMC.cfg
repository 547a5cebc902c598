SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS CropLaw EqLaw FamilyLaw
CHECK_DEADLOCK FALSE
