SPECIFICATION Spec
CONSTANTS
  OPS = {"fw", "fv", "ft", "fr", "fq", "br", "adds"}
  MAXOPS = 3
  MAXLIVE = 5
  MAXUID = 8
  NAMES = {"A"}
  TREES = {"one", "Lpair"}
  SCENES = {}
  MODESET = {}
  MAXNEST = 0
  VERBS = {"All"}
  LEVELS = {}
  HOWS = {}
  USES = {}
  PATHS = {}
  FIELDS = {"ex", "ed", "df", "uq", "pl"}
  SINGS = {"S", "T"}
  RECALL = 2
  EMIT = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  P01_Rooted P02_Names P03_Owners P04_Once P04_All P04_Order P04_Loaded P05_Once P05_Order P05_All P06_Modes P07_Hooks
  P07_Exit P08_Once P08_Hooks P09_Type P10_Paths P11_Names P12_Due P12_All P12_Once P13_Levels P14_Status P14_Report P15_Loaded
  P16_Copied P16_Branch P24_Levels P24_Order P26_Gone P27_Once P27_Frame Script
PROPERTIES
  P06_Pause P07_OneWay P08_Told P09_Ptr P12_Stay P12_Live P16_Apart P17_Alone P26_Apart P27_Busy
