INIT Init
NEXT Next
CONSTANTS COPYIN=FALSE COPYOUT=TRUE COPYNEW=TRUE INPLACE=FALSE MaxObjs=2 MaxArrs=4 Depth=6 Rich=FALSE Emit=FALSE
VIEW View
PROPERTIES Refines
