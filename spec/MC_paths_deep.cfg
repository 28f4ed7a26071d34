SPECIFICATION Spec
CONSTANTS
  OPS = {"grid", "raw", "abs", "name", "free", "addn"}
  MAXOPS = 4
  MAXLIVE = 5
  MAXUID = 7
  NAMES = {"A", "B"}
  TREES = {"chain", "twins", "fork"}
  SCENES = {}
  MODESET = {}
  MAXNEST = 0
  VERBS = {"All"}
  LEVELS = {}
  HOWS = {}
  USES = {}
  PATHS = {"", "/", ".", "..", "A", "/A", "B", "/A/B", "A/B", "B/A", "../B", "./B/..", "B/.", "/A/B/A", "A/", "//A//B", "/B", "../.."}
  FIELDS = {}
  SINGS = {"S", "T"}
  RECALL = 0
  EMIT = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  P01_Rooted P02_Names P03_Owners P04_Once P04_All P04_Order P04_Loaded P05_Once P05_Order P05_All P06_Modes P07_Hooks
  P07_Exit P08_Once P08_Hooks P09_Type P10_Paths P11_Names P12_Due P12_All P12_Once P13_Levels P14_Status P14_Report P15_Loaded
  P16_Copied P16_Branch P24_Levels P24_Order P26_Gone P27_Once P27_Frame Script P10_Steps
PROPERTIES
  P06_Pause P07_OneWay P08_Told P09_Ptr P12_Stay P12_Live P16_Apart P17_Alone P26_Apart P27_Busy
