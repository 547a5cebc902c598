SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS OthersUntouched RemovesThem NoNewTwins RemovesTheVeryOne OthersStay AbsentLeftAlone
CHECK_DEADLOCK FALSE
