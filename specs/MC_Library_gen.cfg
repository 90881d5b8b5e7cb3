INIT Init
NEXT Next
CONSTANTS COPYIN=TRUE COPYOUT=TRUE COPYNEW=TRUE INPLACE=FALSE MaxObjs=6 MaxArrs=9 Depth=14 Rich=TRUE Emit=TRUE

