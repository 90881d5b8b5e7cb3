INIT Init
NEXT Next
CONSTANTS COPYIN=TRUE COPYOUT=TRUE COPYNEW=TRUE INPLACE=FALSE MaxObjs=2 MaxArrs=3 Depth=5 Rich=FALSE Emit=FALSE
VIEW View
PROPERTIES Refines Frame
INVARIANTS NoSharing ObjectsValid
