INIT Init
NEXT Next
CONSTANTS COPYIN=TRUE COPYOUT=TRUE COPYNEW=TRUE INPLACE=FALSE MaxObjs=3 MaxArrs=4 Depth=6 Rich=FALSE Emit=FALSE
VIEW View
PROPERTIES Refines Frame
INVARIANTS NoSharing ObjectsValid
