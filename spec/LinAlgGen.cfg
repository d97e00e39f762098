SPECIFICATION Spec
CONSTANTS
 D = 5
 Ops = {"MultSub","MultTSub","AddMultTSub","SubRAPd","SubRAPs","RAP","RAPd","RAPs","AddRAPd","AddRAPs","Contract","AddContract","TMult","TOnJ","TT0","TT1","TTs0","TTs1","Basis","PrintD","PrintS","PrintV","PrintB"}
CHECK_DEADLOCK FALSE
