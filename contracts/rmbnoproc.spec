// NOPROCESS in the options of a map and, before it, of all maps (a map's frame
// has the global one as its parent, and that has none)
define chain2(fr) = fr == nil || fr.Parent == nil || fr.Parent.Parent == nil
define hasCmd(fr, t) = exists k in 0..len(fr.Commands) :: fr.Commands[k].Type == t
define overridden(fr) = hasCmd(fr, RMB_PERFECT) || hasCmd(fr, RMB_PREPROCESS)
define onlyNP(fr) = len(fr.Commands) > 0 && (forall k in 0..len(fr.Commands) :: fr.Commands[k].Type == RMB_NOPROCESS)

func RMBFrame.IsNOPROCESSInEffect(fr, def)
  requires chain2(fr)
  ensures fr == nil ==> result == def
  ensures fr != nil && fr.Parent == nil ==> result == (!overridden(fr) && (def || hasCmd(fr, RMB_NOPROCESS)))
  ensures fr != nil && fr.Parent != nil ==> result == (!overridden(fr) && !overridden(fr.Parent) && (def || hasCmd(fr, RMB_NOPROCESS) || hasCmd(fr.Parent, RMB_NOPROCESS)))
  loop 0
    invariant forall k in 0..rangeindex+1 :: fr.Commands[k].Type != RMB_PERFECT && fr.Commands[k].Type != RMB_PREPROCESS
    invariant hasNOPROCESS == (def || (exists k in 0..rangeindex+1 :: fr.Commands[k].Type == RMB_NOPROCESS))

func RMBFrame.ThereIsONLY_NOPROCESS(fr)
  requires chain2(fr)
  ensures fr == nil ==> !result
  ensures fr != nil && fr.Parent == nil ==> result == onlyNP(fr)
  ensures fr != nil && fr.Parent != nil ==> result == (onlyNP(fr) && (len(fr.Parent.Commands) == 0 || onlyNP(fr.Parent)))
  loop 0
    invariant forall k in 0..rangeindex+1 :: fr.Commands[k].Type == RMB_NOPROCESS
    invariant hasNOPROCESS == (rangeindex >= 0)

define lastCmd(fr, t, i) = 0 <= i < len(fr.Commands) && fr.Commands[i].Type == t && (forall k in i+1..len(fr.Commands) :: fr.Commands[k].Type != t)
define naggerFrom(nagger, fr) = forall i in 0..len(fr.Commands) :: lastCmd(fr, RMB_NOPROCESS, i) ==> (nagger.currentWadAndMap == (fr.Commands[i].WadFileName == nil))
func RMBFrame.SetNaggerFromActiveNOPROCESS(fr, nagger)
  requires chain2(fr) && nagger != nil && !nagger.currentWadAndMap
  modifies nagger.wadToLoad, nagger.mapToLoad, nagger.currentWadAndMap
  ensures result == (fr != nil && (hasCmd(fr, RMB_NOPROCESS) || fr.Parent != nil && hasCmd(fr.Parent, RMB_NOPROCESS)))
  ensures fr != nil ==> naggerFrom(nagger, fr)
  ensures fr != nil && fr.Parent != nil && !hasCmd(fr, RMB_NOPROCESS) ==> naggerFrom(nagger, fr.Parent)
  loop 0
    invariant lastI == -1 ==> (forall k in 0..rangeindex+1 :: fr.Commands[k].Type != RMB_NOPROCESS)
    invariant -1 <= lastI <= rangeindex && (lastI >= 0 ==> fr.Commands[lastI].Type == RMB_NOPROCESS)
    invariant forall k in 0..rangeindex+1 :: k > lastI ==> fr.Commands[k].Type != RMB_NOPROCESS

func RMBCommand.Error(l, s, a)
func RMBCommand.Info(l, s, a)
func rmbCheckSectorInRange(numSectors, i, command)
  ensures result == (0 <= i < numSectors)
func rejectTableAsOrd(i)
  ensures result <= 1

define tblGood(t, n) = 0 <= n <= 65536 && len(t) >= n * n
define cellIs(t, n, i, j, v) = t[i * n + j] == ite(v == 0, VIS_VISIBLE, VIS_HIDDEN)
define goodJ(t, n, c, i, q) = 0 <= c.List[1][q] < n && cellIs(t, n, i, c.List[1][q], c.Data[0])
define goodI(t, n, c, p) = 0 <= c.List[0][p] < n && (forall q in 0..len(c.List[1]) :: goodJ(t, n, c, c.List[0][p], q))
define goodCmd(t, n, c) = c.Type == RMB_ASSERT ==> 0 <= c.Data[0] <= 1 && (forall p in 0..len(c.List[0]) :: goodI(t, n, c, p))
define goodFrame(t, n, fr) = forall k in 0..len(fr.Commands) :: goodCmd(t, n, fr.Commands[k])
// a sourced reject stands when every assertion holds on it
func RMBFrame.CheckASSERTions(fr, fullRejectTable, numSectors) (passed, checksPresent)
  requires chain2(fr) && tblGood(fullRejectTable, numSectors)
  ensures fr == nil ==> passed
  ensures fr != nil && fr.Parent == nil ==> passed == goodFrame(fullRejectTable, numSectors, fr)
  ensures fr != nil && fr.Parent != nil ==> passed == (goodFrame(fullRejectTable, numSectors, fr) && goodFrame(fullRejectTable, numSectors, fr.Parent))
  loop 0
    invariant good == ((fr.Parent == nil || goodFrame(fullRejectTable, numSectors, fr.Parent)) && (forall k in 0..rangeindex+1 :: goodCmd(fullRejectTable, numSectors, fr.Commands[k])))
  loop 1
    invariant good == ((fr.Parent == nil || goodFrame(fullRejectTable, numSectors, fr.Parent)) && (forall k in 0..rangeindex1 :: goodCmd(fullRejectTable, numSectors, fr.Commands[k])) && (forall p in 0..rangeindex+1 :: goodI(fullRejectTable, numSectors, cmd, p)))
  loop 2
    hint cellBound(numSectors, i, j)
    invariant 0 <= i < numSectors && good == ((fr.Parent == nil || goodFrame(fullRejectTable, numSectors, fr.Parent)) && (forall k in 0..rangeindex2 :: goodCmd(fullRejectTable, numSectors, fr.Commands[k])) && (forall p in 0..rangeindex1 :: goodI(fullRejectTable, numSectors, cmd, p)) && (forall q in 0..rangeindex+1 :: goodJ(fullRejectTable, numSectors, cmd, i, q)))

property R03: RMBFrame.IsNOPROCESSInEffect RMBFrame.ThereIsONLY_NOPROCESS RMBFrame.SetNaggerFromActiveNOPROCESS RMBFrame.CheckASSERTions rmbCheckSectorInRange rejectLumpSize_nonUDMF setRejectTableFromSource resetRejectTable
bounded R03: Level.handleRejectNagging, FileControl.PinExternalWad, RejectWork.main and the code that finds the source lump are not proved: random WADs and options files through the whole program, every sourced reject compared bit by bit with its source and the options on top
