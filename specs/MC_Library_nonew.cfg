INIT Init
NEXT Next
CONSTANTS COPYIN=TRUE COPYOUT=TRUE COPYNEW=FALSE INPLACE=TRUE MaxObjs=2 MaxArrs=4 Depth=6 Rich=FALSE Emit=FALSE
VIEW View
PROPERTIES Refines
