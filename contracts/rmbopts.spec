// RMB options put on top of the lines of sight

// What a sector's setting hides at a distance: 1 normal, 2 inverted, 3 both (a
// band when they overlap), 4 band, 7 all but a band
define bandHides(st, lo, hi, d) = ite(st == 4 || st == 3 && lo < hi, lo <= d && d < hi, st % 2 == 1 && d >= lo || (st / 2) % 2 == 1 && d < hi)
define stOk(st) = 0 <= st <= 4 || st == 7
define dAt(r, i, j) = r.distanceTable[tri(r.numSectors, i, j)]
define dtOk(r) = 1 <= r.numSectors <= 65536 && len(r.distanceTable) >= triLen(r.numSectors) - 7

lemma bandSym(n, i, j)
  requires 0 <= i < n && 0 <= j < n
  hint reveal(tri(n, i, j))
  hint reveal(tri(n, j, i))
  ensures tri(n, i, j) == tri(n, j, i)

foreach T in RejectWork FastRejectWork
func $T.distanceTableIJ(r, i, j)
  requires dtOk(r) && secOk(r, i) && secOk(r, j)
  hint triBound(r.numSectors, i, j)
  hint reveal(tri(r.numSectors, i, j))
  ensures obj(result) == obj(r.distanceTable) && off(result) == off(r.distanceTable) + tri(r.numSectors, i, j)

func $T.applyBlind(r, sector, i)
  requires tblOk(r) && dtOk(r) && secOk(r, i) && stOk(sector.Blind)
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  callhint rejectTableIJ: reveal(cpos(r.numSectors, $arg1, $arg2))
  ensures forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, i, b)] == ite(bandHides(old(sector.Blind), old(sector.BlindLo), old(sector.BlindHi), dAt(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, i, b)]))
  ensures forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || rowOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])
  loop 0
    invariant 0 <= j <= r.numSectors
    invariant sector.BlindLo == old(sector.BlindLo) && sector.BlindHi == old(sector.BlindHi)
    invariant sector.Blind == ite(old(sector.Blind) == 3 && old(sector.BlindLo) < old(sector.BlindHi), 4, old(sector.Blind))
    invariant forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, i, b)] == ite(b < j && bandHides(old(sector.Blind), old(sector.BlindLo), old(sector.BlindHi), dAt(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, i, b)]))
    invariant forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || rowOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])

func $T.applySafe(r, sector, i)
  requires tblOk(r) && dtOk(r) && secOk(r, i) && stOk(sector.Safe)
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  callhint rejectTableIJ: reveal(cpos(r.numSectors, $arg1, $arg2))
  ensures forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, b, i)] == ite(bandHides(old(sector.Safe), old(sector.SafeLo), old(sector.SafeHi), dAt(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, b, i)]))
  ensures forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || colOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])
  loop 0
    invariant 0 <= j <= r.numSectors
    invariant sector.SafeLo == old(sector.SafeLo) && sector.SafeHi == old(sector.SafeHi)
    invariant sector.Safe == ite(old(sector.Safe) == 3 && old(sector.SafeLo) < old(sector.SafeHi), 4, old(sector.Safe))
    invariant forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, b, i)] == ite(b < j && bandHides(old(sector.Safe), old(sector.SafeLo), old(sector.SafeHi), dAt(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, b, i)]))
    invariant forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || colOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])
endfor

// the sectors a sector list's number stands for
define grpPars(r) = forall g in 0..len(r.groups) :: 0 <= r.groups[g].parent < r.numSectors
define standsFor(r, num) = r.groups[ite(r.hasGroups && !r.groups[num].legal, r.groups[num].parent, num)].sectors
func rmbGetSector(sectors, i, command)
  ensures 0 <= i < len(sectors) ==> result != nil && obj(result) == obj(sectors) && off(result) == off(sectors) + i
  ensures !(0 <= i < len(sectors)) ==> result == nil
foreach T in RejectWork FastRejectWork
func $T.rmbGetGroup(r, sectors, num, command)
  requires grpOwn(r) && grpPars(r) && len(sectors) == r.numSectors
  ensures 0 <= num < r.numSectors ==> result == standsFor(r, num)
  ensures !(0 <= num < r.numSectors) ==> len(result) == 0
  ensures forall b in 0..len(result) :: secOk(r, result[b])
endfor

define setSmall(ss) = forall s in 0..len(ss) :: ss[s].Blind <= 3 && ss[s].Safe <= 3
define optBand(c, st, lo, hi) = st == ite(c.Invert, 7, 4) && lo == ite(c.Invert, c.Data[1], c.Data[0]) && hi == ite(c.Invert, c.Data[0], c.Data[1])
define optPlain(c, st0, lo0, hi0, st, lo, hi) = ite(st0 >= 4, st == st0 && lo == lo0 && hi == hi0, ite(c.Invert, st == st0 % 2 + 2 && hi == c.Data[0] && lo == lo0, st == st0 - st0 % 2 + 1 && lo == c.Data[0] && hi == hi0))
define optSet(c, st0, lo0, hi0, st, lo, hi) = ite(c.Band, optBand(c, st, lo, hi), optPlain(c, st0, lo0, hi0, st, lo, hi))
define blindSet(c, ss, s) = optSet(c, old(ss[s].Blind), old(ss[s].BlindLo), old(ss[s].BlindHi), ss[s].Blind, ss[s].BlindLo, ss[s].BlindHi)
define safeSet(c, ss, s) = optSet(c, old(ss[s].Safe), old(ss[s].SafeLo), old(ss[s].SafeHi), ss[s].Safe, ss[s].SafeLo, ss[s].SafeHi)
define blindSame(ss, s) = ss[s].Blind == old(ss[s].Blind) && ss[s].BlindLo == old(ss[s].BlindLo) && ss[s].BlindHi == old(ss[s].BlindHi)
define safeSame(ss, s) = ss[s].Safe == old(ss[s].Safe) && ss[s].SafeLo == old(ss[s].SafeLo) && ss[s].SafeHi == old(ss[s].SafeHi)
define inList(r, c, s, K) = exists q in 0..K :: 0 <= c.List[0][q] < r.numSectors && (exists b in 0..len(standsFor(r, c.List[0][q])) :: standsFor(r, c.List[0][q])[b] == s)
define inPart(g, s, K) = exists b in 0..K :: g[b] == s

foreach T in RejectWork FastRejectWork
func $T.prepareBlind(r, command, sectors)
  requires grpOwn(r) && grpPars(r) && len(sectors) == r.numSectors && (forall s in 0..len(sectors) :: stOk(sectors[s].Blind))
  modifies sectors[*].Blind, sectors[*].BlindLo, sectors[*].BlindHi
  ensures forall s in 0..len(sectors) :: inList(r, command, s, len(command.List[0])) ==> blindSet(command, sectors, s)
  ensures forall s in 0..len(sectors) :: !inList(r, command, s, len(command.List[0])) ==> blindSame(sectors, s)
  ensures forall s in 0..len(sectors) :: stOk(sectors[s].Blind)
  ensures !command.Band && old(setSmall(sectors)) ==> setSmall(sectors)
  loop 0
    invariant forall s in 0..len(sectors) :: ite(inList(r, command, s, $k0), blindSet(command, sectors, s), blindSame(sectors, s))
  loop 1
    invariant forall s in 0..len(sectors) :: ite(inList(r, command, s, $k0) || inPart(group, s, $k1), blindSet(command, sectors, s), blindSame(sectors, s))
  loop 2
    invariant forall s in 0..len(sectors) :: ite(inList(r, command, s, $k2), blindSet(command, sectors, s), blindSame(sectors, s))
  loop 3
    invariant forall s in 0..len(sectors) :: ite(inList(r, command, s, $k2) || inPart(group, s, $k3), blindSet(command, sectors, s), blindSame(sectors, s))

func $T.prepareSafe(r, command, sectors)
  requires grpOwn(r) && grpPars(r) && len(sectors) == r.numSectors && (forall s in 0..len(sectors) :: stOk(sectors[s].Safe))
  modifies sectors[*].Safe, sectors[*].SafeLo, sectors[*].SafeHi
  ensures forall s in 0..len(sectors) :: inList(r, command, s, len(command.List[0])) ==> safeSet(command, sectors, s)
  ensures forall s in 0..len(sectors) :: !inList(r, command, s, len(command.List[0])) ==> safeSame(sectors, s)
  ensures forall s in 0..len(sectors) :: stOk(sectors[s].Safe)
  ensures !command.Band && old(setSmall(sectors)) ==> setSmall(sectors)
  loop 0
    invariant forall s in 0..len(sectors) :: ite(inList(r, command, s, $k0), safeSet(command, sectors, s), safeSame(sectors, s))
  loop 1
    invariant forall s in 0..len(sectors) :: ite(inList(r, command, s, $k0) || inPart(group, s, $k1), safeSet(command, sectors, s), safeSame(sectors, s))
  loop 2
    invariant forall s in 0..len(sectors) :: ite(inList(r, command, s, $k2), safeSet(command, sectors, s), safeSame(sectors, s))
  loop 3
    invariant forall s in 0..len(sectors) :: ite(inList(r, command, s, $k2) || inPart(group, s, $k3), safeSet(command, sectors, s), safeSame(sectors, s))
endfor

// BLIND and SAFE with 0 or 1 only, without distances: a sector is at distance 0
// from its own group and further from everything else
define simpleHides(st, lo, hi, same) = (st % 2 == 1 && !(st == 3 && lo < hi)) && (lo == 0 || !same) || (st / 2) % 2 == 1 && hi == 1 && same
lemma simpleIsBand(st, lo, hi, d)
  requires 0 <= st <= 3 && 0 <= lo <= 1 && 0 <= hi <= 1 && d >= 0
  ensures simpleHides(st, lo, hi, d == 0) == bandHides(st, lo, hi, d)

define grpPart(r) = forall b in 0..len(r.groups) :: r.groups[r.groups[b].parent].legal && r.groups[r.groups[b].parent].parent == r.groups[b].parent && (exists q in 0..len(r.groups[r.groups[b].parent].sectors) :: r.groups[r.groups[b].parent].sectors[q] == b)
define grpMine(r) = forall g in 0..len(r.groups) :: r.groups[g].legal ==> r.groups[g].parent == g && (forall q in 0..len(r.groups[g].sectors) :: r.groups[r.groups[g].sectors[q]].parent == g)
define sameGrp(r, a, b) = r.groups[a].parent == r.groups[b].parent

foreach T in RejectWork FastRejectWork
func $T.applySimpleBlind(r, sector, i)
  requires tblOk(r) && secOk(r, i) && grpOwn(r) && grpPars(r) && grpPart(r) && grpMine(r) && 0 <= sector.Blind <= 3
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  callhint rejectTableIJ: reveal(cpos(r.numSectors, $arg1, $arg2))
  ensures forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, i, b)] == ite(simpleHides(old(sector.Blind), old(sector.BlindLo), old(sector.BlindHi), sameGrp(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, i, b)]))
  ensures forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || rowOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])
  loop 0
    invariant 0 <= j <= r.numSectors
    invariant forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, i, b)] == ite(r.groups[b].parent < j && simpleHides(old(sector.Blind), old(sector.BlindLo), old(sector.BlindHi), sameGrp(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, i, b)]))
    invariant forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || rowOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])
  loop 1
    invariant 0 <= j < r.numSectors
    invariant forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, i, b)] == ite((r.groups[b].parent < j || inPart(r.groups[j].sectors, b, $k)) && simpleHides(old(sector.Blind), old(sector.BlindLo), old(sector.BlindHi), sameGrp(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, i, b)]))
    invariant forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || rowOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])

func $T.applySimpleSafe(r, sector, i)
  requires tblOk(r) && secOk(r, i) && grpOwn(r) && grpPars(r) && grpPart(r) && grpMine(r) && 0 <= sector.Safe <= 3
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  callhint rejectTableIJ: reveal(cpos(r.numSectors, $arg1, $arg2))
  ensures forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, b, i)] == ite(simpleHides(old(sector.Safe), old(sector.SafeLo), old(sector.SafeHi), sameGrp(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, b, i)]))
  ensures forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || colOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])
  loop 0
    invariant 0 <= j <= r.numSectors
    invariant forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, b, i)] == ite(r.groups[b].parent < j && simpleHides(old(sector.Safe), old(sector.SafeLo), old(sector.SafeHi), sameGrp(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, b, i)]))
    invariant forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || colOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])
  loop 1
    invariant 0 <= j < r.numSectors
    invariant forall b in 0..r.numSectors :: r.rejectTable[cpos(r.numSectors, b, i)] == ite((r.groups[b].parent < j || inPart(r.groups[j].sectors, b, $k)) && simpleHides(old(sector.Safe), old(sector.SafeLo), old(sector.SafeHi), sameGrp(r, i, b)), VIS_HIDDEN, old(r.rejectTable[cpos(r.numSectors, b, i)]))
    invariant forall k in 0..len(r.rejectTable) :: k >= r.numSectors * r.numSectors || colOf(r.numSectors, k) != i ==> r.rejectTable[k] == old(r.rejectTable[k])
endfor

// every sector's setting is applied to its own row (BLIND) and column (SAFE)
define setOk(ss) = forall s in 0..len(ss) :: stOk(ss[s].Blind) && stOk(ss[s].Safe)
define blindHits(r, ss, n, a, b) = a < n && ss[a].Blind > 0 && bandHides(ss[a].Blind, ss[a].BlindLo, ss[a].BlindHi, dAt(r, a, b))
define safeHits(r, ss, n, a, b) = b < n && ss[b].Safe > 0 && bandHides(ss[b].Safe, ss[b].SafeLo, ss[b].SafeHi, dAt(r, b, a))
define blindHitsS(r, ss, n, a, b) = a < n && ss[a].Blind > 0 && simpleHides(ss[a].Blind, ss[a].BlindLo, ss[a].BlindHi, sameGrp(r, a, b))
define safeHitsS(r, ss, n, a, b) = b < n && ss[b].Safe > 0 && simpleHides(ss[b].Safe, ss[b].SafeLo, ss[b].SafeHi, sameGrp(r, b, a))
define cellAt(r, a, b) = r.rejectTable[cpos(r.numSectors, a, b)]
define onlyTo(r, v) = forall a, b in 0..r.numSectors :: cellAt(r, a, b) == old(cellAt(r, a, b)) || cellAt(r, a, b) == v

foreach F in processDistanceUsingOptions FastprocessDistanceUsingOptions
func RMBFrame.$F(fr, r, sectors)
  requires tblOk(r) && dtOk(r) && grpOwn(r) && grpPars(r) && chain2(fr)
  requires sectors != nil ==> len(sectors) == r.numSectors && setOk(sectors)
  modifies r.rejectTable[*], sectors[*].Blind, sectors[*].BlindLo, sectors[*].BlindHi, sectors[*].Safe, sectors[*].SafeLo, sectors[*].SafeHi
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  ensures sectors != nil ==> sameAsBefore(r.rejectTable) && setOk(sectors)
  ensures onlyTo(r, VIS_HIDDEN)
  loop 0
    invariant len(sectors) == r.numSectors && setOk(sectors)
    invariant sameAsBefore(r.rejectTable)
  loop 1
    invariant len(sectors) == r.numSectors && setOk(sectors)
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(blindHits(r, sectors, $k, a, b) || safeHits(r, sectors, $k, a, b), VIS_HIDDEN, old(cellAt(r, a, b)))
endfor

// only options without a band, with 0 or 1, come without distances
define plainCmds(fr) = forall k in 0..len(fr.Commands) :: fr.Commands[k].Type == RMB_SIMPLE_BLIND || fr.Commands[k].Type == RMB_SIMPLE_SAFE ==> !fr.Commands[k].Band
foreach F in processSimpleBlindSafeOptions FastprocessSimpleBlindSafeOptions
func RMBFrame.$F(fr, r, sectors)
  requires tblOk(r) && grpOwn(r) && grpPars(r) && grpPart(r) && grpMine(r) && chain2(fr) && (fr != nil ==> plainCmds(fr)) && (fr != nil && fr.Parent != nil ==> plainCmds(fr.Parent))
  requires sectors != nil ==> len(sectors) == r.numSectors && setOk(sectors) && setSmall(sectors)
  modifies r.rejectTable[*], sectors[*].Blind, sectors[*].BlindLo, sectors[*].BlindHi, sectors[*].Safe, sectors[*].SafeLo, sectors[*].SafeHi
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  ensures sectors != nil ==> sameAsBefore(r.rejectTable) && setOk(sectors) && setSmall(sectors)
  ensures onlyTo(r, VIS_HIDDEN)
  loop 0
    invariant len(sectors) == r.numSectors && setOk(sectors) && setSmall(sectors)
    invariant sameAsBefore(r.rejectTable)
  loop 1
    invariant len(sectors) == r.numSectors && setOk(sectors) && setSmall(sectors)
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(blindHitsS(r, sectors, $k, a, b) || safeHitsS(r, sectors, $k, a, b), VIS_HIDDEN, old(cellAt(r, a, b)))
endfor

// which kinds of options a map's frame and its parent hold
define hasAny2(fr, t, u) = hasCmd(fr, t) || hasCmd(fr, u)
func RMBFrame.hasSimpleBlindSafe(fr)
  requires chain2(fr)
  ensures fr == nil ==> !result
  ensures fr != nil ==> result == (hasAny2(fr, RMB_SIMPLE_BLIND, RMB_SIMPLE_SAFE) || fr.Parent != nil && hasAny2(fr.Parent, RMB_SIMPLE_BLIND, RMB_SIMPLE_SAFE))
  loop 0
    invariant forall k in 0..$k :: fr.Commands[k].Type != RMB_SIMPLE_BLIND && fr.Commands[k].Type != RMB_SIMPLE_SAFE

define needsDist(fr) = hasCmd(fr, RMB_BLIND) || hasCmd(fr, RMB_LENGTH) || hasCmd(fr, RMB_SAFE) || hasCmd(fr, RMB_REPORT)
func RMBFrame.NeedDistances(fr)
  requires chain2(fr)
  ensures fr == nil ==> !result
  ensures fr != nil ==> result == (needsDist(fr) || fr.Parent != nil && needsDist(fr.Parent))
  loop 0
    invariant forall k in 0..$k :: fr.Commands[k].Type != RMB_BLIND && fr.Commands[k].Type != RMB_LENGTH && fr.Commands[k].Type != RMB_SAFE && fr.Commands[k].Type != RMB_REPORT

// LINE, DISTANCE and LENGTH need the sectors of a group to share what they see
define groupTricky(fr) = hasCmd(fr, RMB_DISTANCE) || hasCmd(fr, RMB_LENGTH) || hasCmd(fr, RMB_LINE) || hasCmd(fr, RMB_LEFT) || hasCmd(fr, RMB_RIGHT)
func RMBFrame.HasOptionTrickyForGroups(fr)
  requires chain2(fr)
  ensures fr == nil ==> !result
  ensures fr != nil && groupTricky(fr) ==> result
  ensures fr != nil && fr.Parent != nil && groupTricky(fr.Parent) ==> result
  loop 0
    invariant forall k in 0..$k :: fr.Commands[k].Type != RMB_DISTANCE && fr.Commands[k].Type != RMB_LENGTH && fr.Commands[k].Type != RMB_LINE && fr.Commands[k].Type != RMB_LEFT && fr.Commands[k].Type != RMB_RIGHT

define lineEff(fr) = hasCmd(fr, RMB_LINE) || hasCmd(fr, RMB_LEFT) || hasCmd(fr, RMB_RIGHT)
func RMBFrame.HasLineEffects(fr)
  requires chain2(fr)
  ensures fr == nil ==> !result
  ensures fr != nil ==> result == (lineEff(fr) || fr.Parent != nil && lineEff(fr.Parent))
  loop 0
    invariant forall k in 0..$k :: fr.Commands[k].Type != RMB_LINE && fr.Commands[k].Type != RMB_LEFT && fr.Commands[k].Type != RMB_RIGHT

// BLIND and SAFE are done without distances only when none has a band or goes past 1
define bsCmd(c) = c.Type == RMB_BLIND || c.Type == RMB_SAFE
define complexBS(fr) = exists k in 0..len(fr.Commands) :: bsCmd(fr.Commands[k]) && (fr.Commands[k].Band || fr.Commands[k].Data[0] > 1)
func RMBFrame.checkTrivialBlindSafe(fr)
  requires chain2(fr)
  ensures fr == nil ==> result == BLINDSAFE_NONE
  ensures fr != nil && fr.Parent == nil ==> (result == BLINDSAFE_COMPLEX) == complexBS(fr)
  ensures fr != nil && fr.Parent != nil ==> (result == BLINDSAFE_COMPLEX) == (complexBS(fr) || complexBS(fr.Parent))
  ensures fr != nil && fr.Parent == nil ==> (result == BLINDSAFE_NONE) == (!hasCmd(fr, RMB_BLIND) && !hasCmd(fr, RMB_SAFE))
  ensures fr != nil && fr.Parent != nil ==> (result == BLINDSAFE_NONE) == (!hasCmd(fr, RMB_BLIND) && !hasCmd(fr, RMB_SAFE) && !hasCmd(fr.Parent, RMB_BLIND) && !hasCmd(fr.Parent, RMB_SAFE))
  loop 0
    invariant ret != BLINDSAFE_COMPLEX
    invariant forall k in 0..$k :: !(bsCmd(fr.Commands[k]) && (fr.Commands[k].Band || fr.Commands[k].Data[0] > 1))
    invariant fr.Parent != nil ==> !complexBS(fr.Parent)
    invariant (ret == BLINDSAFE_NONE) == ((forall k in 0..$k :: !bsCmd(fr.Commands[k])) && (fr.Parent == nil || !hasCmd(fr.Parent, RMB_BLIND) && !hasCmd(fr.Parent, RMB_SAFE)))

// the last LENGTH of the map's options, or else of the options of all maps
define lastLen(fr, i) = 0 <= i < len(fr.Commands) && fr.Commands[i].Type == RMB_LENGTH && (forall k in i+1..len(fr.Commands) :: fr.Commands[k].Type != RMB_LENGTH)
define lenVal(v) = ite(v > 65535, 65535, ite(v < 0, 0, v))
func RMBFrame.GetLENGTHValue(fr) (ok, val)
  requires chain2(fr)
  ensures fr == nil ==> !ok
  ensures fr != nil ==> ok == (hasCmd(fr, RMB_LENGTH) || fr.Parent != nil && hasCmd(fr.Parent, RMB_LENGTH))
  ensures fr != nil ==> (forall i in 0..len(fr.Commands) :: lastLen(fr, i) ==> val == lenVal(fr.Commands[i].Data[0]))
  ensures fr != nil && !hasCmd(fr, RMB_LENGTH) && fr.Parent != nil ==> (forall i in 0..len(fr.Parent.Commands) :: lastLen(fr.Parent, i) ==> val == lenVal(fr.Parent.Commands[i].Data[0]))
  loop 0
    invariant -1 <= i < len(fr.Commands)
    invariant forall k in i+1..len(fr.Commands) :: fr.Commands[k].Type != RMB_LENGTH

define lastDist(fr, i) = 0 <= i < len(fr.Commands) && fr.Commands[i].Type == RMB_DISTANCE && (forall k in i+1..len(fr.Commands) :: fr.Commands[k].Type != RMB_DISTANCE)
define distSmall(fr) = forall k in 0..len(fr.Commands) :: fr.Commands[k].Type == RMB_DISTANCE ==> -4294967296 < fr.Commands[k].Data[0] < 4294967296
func RMBFrame.GetDISTANCEValue(fr) (ok, val)
  requires chain2(fr) && (fr != nil ==> distSmall(fr)) && (fr != nil && fr.Parent != nil ==> distSmall(fr.Parent))
  ensures fr == nil ==> !ok
  ensures fr != nil ==> ok == (hasCmd(fr, RMB_DISTANCE) || fr.Parent != nil && hasCmd(fr.Parent, RMB_DISTANCE))
  ensures fr != nil ==> (forall i in 0..len(fr.Commands) :: lastDist(fr, i) && fr.Commands[i].Data[0] >= 0 ==> val == fr.Commands[i].Data[0] * fr.Commands[i].Data[0])
  ensures fr != nil && !hasCmd(fr, RMB_DISTANCE) && fr.Parent != nil ==> (forall i in 0..len(fr.Parent.Commands) :: lastDist(fr.Parent, i) && fr.Parent.Commands[i].Data[0] >= 0 ==> val == fr.Parent.Commands[i].Data[0] * fr.Parent.Commands[i].Data[0])
  loop 0
    invariant -1 <= i < len(fr.Commands)
    invariant forall k in i+1..len(fr.Commands) :: fr.Commands[k].Type != RMB_DISTANCE

// INCLUDE and EXCLUDE write every listed pair of sectors (or groups), and no other
define memOf(r, i, a) = ite(r.hasGroups, exists x in 0..len(own(r, i)) :: own(r, i)[x] == a, i == a)
define pairIn(r, c, p, q, a, b) = 0 <= c.List[0][p] < r.numSectors && 0 <= c.List[1][q] < r.numSectors && memOf(r, c.List[0][p], a) && memOf(r, c.List[1][q], b)
define rowIn(r, c, p, Q, a, b) = exists q in 0..Q :: pairIn(r, c, p, q, a, b)
define cmdIn(r, c, P, a, b) = exists p in 0..P :: rowIn(r, c, p, len(c.List[1]), a, b)
define fullIn(r, c, a, b) = cmdIn(r, c, len(c.List[0]), a, b)
define frameIn(r, fr, t, K, a, b) = exists k in 0..K :: fr.Commands[k].Type == t && fullIn(r, fr.Commands[k], a, b)
define parIn(r, fr, t, a, b) = fr.Parent != nil && frameIn(r, fr.Parent, t, len(fr.Parent.Commands), a, b)
foreach F in processINCLUDEs FastprocessINCLUDEs
func RMBFrame.$F(fr, r)
  requires tblOk(r) && (r.hasGroups ==> grpOwn(r)) && chain2(fr)
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  ensures fr == nil ==> sameAsBefore(r.rejectTable)
  ensures fr != nil ==> (forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(parIn(r, fr, RMB_INCLUDE, a, b) || frameIn(r, fr, RMB_INCLUDE, len(fr.Commands), a, b), VIS_VISIBLE, old(cellAt(r, a, b))))
  loop 0
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(parIn(r, fr, RMB_INCLUDE, a, b) || frameIn(r, fr, RMB_INCLUDE, $k0, a, b), VIS_VISIBLE, old(cellAt(r, a, b)))
  loop 1
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(parIn(r, fr, RMB_INCLUDE, a, b) || frameIn(r, fr, RMB_INCLUDE, $k0, a, b) || cmdIn(r, cmd, $k1, a, b), VIS_VISIBLE, old(cellAt(r, a, b)))
  loop 2
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(parIn(r, fr, RMB_INCLUDE, a, b) || frameIn(r, fr, RMB_INCLUDE, $k0, a, b) || cmdIn(r, cmd, $k1, a, b) || rowIn(r, cmd, $k1, $k2, a, b), VIS_VISIBLE, old(cellAt(r, a, b)))
endfor
foreach F in processEXCLUDEs FastprocessEXCLUDEs
func RMBFrame.$F(fr, r)
  requires tblOk(r) && (r.hasGroups ==> grpOwn(r)) && chain2(fr)
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  ensures fr == nil ==> sameAsBefore(r.rejectTable)
  ensures fr != nil ==> (forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(parIn(r, fr, RMB_EXCLUDE, a, b) || frameIn(r, fr, RMB_EXCLUDE, len(fr.Commands), a, b), VIS_HIDDEN, old(cellAt(r, a, b))))
  loop 0
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(parIn(r, fr, RMB_EXCLUDE, a, b) || frameIn(r, fr, RMB_EXCLUDE, $k0, a, b), VIS_HIDDEN, old(cellAt(r, a, b)))
  loop 1
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(parIn(r, fr, RMB_EXCLUDE, a, b) || frameIn(r, fr, RMB_EXCLUDE, $k0, a, b) || cmdIn(r, cmd, $k1, a, b), VIS_HIDDEN, old(cellAt(r, a, b)))
  loop 2
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(parIn(r, fr, RMB_EXCLUDE, a, b) || frameIn(r, fr, RMB_EXCLUDE, $k0, a, b) || cmdIn(r, cmd, $k1, a, b) || rowIn(r, cmd, $k1, $k2, a, b), VIS_HIDDEN, old(cellAt(r, a, b)))
endfor

// VORTEX: both lists see each other, whatever was hidden, and nothing gets hidden
define vortRow(r, c, p, Q, a, b) = rowIn(r, c, p, Q, a, b) || rowIn(r, c, p, Q, b, a)
define vortCmd(r, c, P, a, b) = cmdIn(r, c, P, a, b) || cmdIn(r, c, P, b, a)
define vortFrame(r, fr, K, a, b) = frameIn(r, fr, RMB_VORTEX, K, a, b) || frameIn(r, fr, RMB_VORTEX, K, b, a)
define vortPar(r, fr, a, b) = parIn(r, fr, RMB_VORTEX, a, b) || parIn(r, fr, RMB_VORTEX, b, a)
foreach F in vortexesFirstStage FastvortexesFirstStage
func RMBFrame.$F(fr, r)
  requires tblOk(r) && (r.hasGroups ==> grpOwn(r)) && chain2(fr)
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  ensures fr == nil ==> sameAsBefore(r.rejectTable)
  ensures fr != nil ==> (forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(vortPar(r, fr, a, b) || vortFrame(r, fr, len(fr.Commands), a, b), VIS_VISIBLE, old(cellAt(r, a, b))))
  loop 0
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(vortPar(r, fr, a, b) || vortFrame(r, fr, $k0, a, b), VIS_VISIBLE, old(cellAt(r, a, b)))
  loop 1
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(vortPar(r, fr, a, b) || vortFrame(r, fr, $k0, a, b) || vortCmd(r, cmd, $k1, a, b), VIS_VISIBLE, old(cellAt(r, a, b)))
  loop 2
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(vortPar(r, fr, a, b) || vortFrame(r, fr, $k0, a, b) || vortCmd(r, cmd, $k1, a, b) || vortRow(r, cmd, $k1, $k2, a, b), VIS_VISIBLE, old(cellAt(r, a, b)))
endfor

func otherVortexList(i)
  requires i >= 0
  ensures result == ite(i % 2 == 1, i - 1, i + 1)

define pointList(r, l) = forall q in 0..len(l) :: 0 <= l[q] < r.numSectors
define vortLists(r, L) = len(L) % 2 == 0 && (forall v in 0..len(L) :: allocated(L[v]) && pointList(r, L[v]))
define backing(L) = obj(deref(L)) == old(obj(deref(L))) || fresh(deref(L))
define ownList(r, L, l) = fresh(l) && allocated(l) && pointList(r, l) && (forall v in 0..len(L) :: obj(L[v]) != obj(l))
foreach F in getAllVortexes FastgetAllVortexes
func RMBFrame.$F(fr, allVortexes, r)
  requires allVortexes != nil && vortLists(r, deref(allVortexes)) && chain2(fr)
  modifies *allVortexes, deref(allVortexes)[*]
  ensures vortLists(r, deref(allVortexes)) && backing(allVortexes)
  loop 0
    invariant vortLists(r, deref(allVortexes)) && backing(allVortexes)
  loop 1
    invariant vortLists(r, deref(allVortexes)) && backing(allVortexes)
    invariant ownList(r, deref(allVortexes), list0) && ownList(r, deref(allVortexes), list1) && obj(list0) != obj(list1)
  loop 2
    invariant vortLists(r, deref(allVortexes)) && backing(allVortexes)
    invariant ownList(r, deref(allVortexes), list0) && ownList(r, deref(allVortexes), list1) && obj(list0) != obj(list1)
endfor

define visGrows(r) = forall a, b in 0..r.numSectors :: cellAt(r, a, b) == old(cellAt(r, a, b)) || cellAt(r, a, b) == VIS_VISIBLE
foreach F in vortexesSecondStage FastvortexesSecondStage
func RMBFrame.$F(fr, r)
  requires tblOk(r) && (r.hasGroups ==> grpOwn(r)) && chain2(fr)
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  ensures visGrows(r)
  loop 0
    invariant visGrows(r) && vortLists(r, allVortexes)
  loop 1
    invariant visGrows(r) && vortLists(r, allVortexes)
  loop 2
    invariant visGrows(r) && vortLists(r, allVortexes)
  loop 3
    invariant visGrows(r) && vortLists(r, allVortexes)
  loop 4
    invariant visGrows(r) && vortLists(r, allVortexes)
  loop 5
    invariant visGrows(r) && vortLists(r, allVortexes)
  loop 6
    invariant visGrows(r) && vortLists(r, allVortexes)
  loop 7
    invariant visGrows(r) && vortLists(r, allVortexes)
  loop 8
    invariant visGrows(r) && vortLists(r, allVortexes)
endfor

define sectIn(r, l, q) = 0 <= l[q] < r.numSectors
define isIn(l, v) = exists q in 0..len(l) :: l[q] == v
define inOne(r, l, src, q) = old(sectIn(r, src, q)) ==> isIn(l, old(src[q]))
define listDone(r, l, src, Q) = forall q in 0..Q :: inOne(r, l, src, q)
define lastOne(r, l, src, q) = old(sectIn(r, src, q)) ==> len(l) > 0 && l[len(l) - 1] == old(src[q])
define visAt(r, a, b) = cellAt(r, a, b) == VIS_VISIBLE
define seesDone(r, sees, l, x, Q) = forall q in 0..Q :: visAt(r, x, l[q]) ==> sees[x]
define seenDone(r, seen, l, y, Q) = forall q in 0..Q :: visAt(r, l[q], y) ==> seen[y]
define allSees(r, sees, l, X) = forall x in 0..X :: seesDone(r, sees, l, x, len(l))
define allSeen(r, seen, l, Y) = forall y in 0..Y :: seenDone(r, seen, l, y, len(l))
define through(r, sees, seen, X) = forall x, y in 0..r.numSectors :: x < X && sees[x] && seen[y] ==> visAt(r, x, y)
// whatever saw a sector of one list sees whatever a sector of the other saw
define sawPair(r, fr, k, s, x, y, p, q) = fr.Commands[k].Type == RMB_VORTEX && sectIn(r, fr.Commands[k].List[s], p) && sectIn(r, fr.Commands[k].List[1-s], q) && visAt(r, x, fr.Commands[k].List[s][p]) && visAt(r, fr.Commands[k].List[1-s][q], y)
define vortSide(r, fr, k, s) = forall x, y in 0..r.numSectors :: forall p in 0..len(fr.Commands[k].List[s]) :: forall q in 0..len(fr.Commands[k].List[1-s]) :: old(sawPair(r, fr, k, s, x, y, p, q)) ==> visAt(r, x, y)
define vortDone(r, fr, K) = forall k in 0..K :: vortSide(r, fr, k, 0) && vortSide(r, fr, k, 1)
define vl3(r, cmd, list0, list1) = visGrows(r) && pointList(r, list0) && pointList(r, list1) && listDone(r, list0, cmd.List[0], len(cmd.List[0])) && listDone(r, list1, cmd.List[1], len(cmd.List[1]))
define vprev(r, fr, K) = visGrows(r) && vortDone(r, fr, K) && (fr.Parent != nil ==> vortDone(r, fr.Parent, len(fr.Parent.Commands)))
define listsOld(fr) = forall k in 0..len(fr.Commands) :: allocated(fr.Commands[k].List[0]) && allocated(fr.Commands[k].List[1])
define sawSet(r, A, sees) = forall x, p in 0..1099511627776 :: x < r.numSectors && p < len(A) && old(sectIn(r, A, p)) && old(visAt(r, x, A[p])) ==> sees[x]
define seenSet(r, A, seen) = forall y, p in 0..1099511627776 :: y < r.numSectors && p < len(A) && old(sectIn(r, A, p)) && old(visAt(r, A[p], y)) ==> seen[y]
define sets4(r, c, s0, s1, f0, f1) = sawSet(r, c.List[0], s0) && sawSet(r, c.List[1], s1) && seenSet(r, c.List[0], f0) && seenSet(r, c.List[1], f1)
foreach F in vortexesThirdStage FastvortexesThirdStage
func RMBFrame.$F(fr, r)
  requires tblOk(r) && chain2(fr) && (fr != nil ==> listsOld(fr) && (fr.Parent != nil ==> listsOld(fr.Parent)))
  modifies r.rejectTable[*]
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  callhint rejectTableIJ: reveal(cpos(r.numSectors, $arg1, $arg2))
  ensures visGrows(r)
  ensures fr != nil ==> vortDone(r, fr, len(fr.Commands)) && (fr.Parent != nil ==> vortDone(r, fr.Parent, len(fr.Parent.Commands)))
  loop 0
    invariant vprev(r, fr, $k0)
    endhint vortDone(r, fr, $k - 1)
    endhint vortSide(r, fr, $k - 1, 0)
    endhint vortSide(r, fr, $k - 1, 1)
  loop 1
    invariant vprev(r, fr, $k0) && pointList(r, list0) && fresh(list0) && allocated(list0) && allocated(list1) && obj(list0) != obj(list1)
    invariant listDone(r, list0, cmd.List[0], $k1)
    endhint len(list0) >= len(head(list0)) && (forall q in 0..len(head(list0)) :: list0[q] == head(list0[q]))
    endhint lastOne(r, list0, cmd.List[0], $k - 1)
    endhint inOne(r, list0, cmd.List[0], $k - 1)
    endhint listDone(r, list0, cmd.List[0], $k - 1)
  loop 2
    invariant vprev(r, fr, $k0) && pointList(r, list0) && pointList(r, list1) && fresh(list1) && allocated(list0) && allocated(list1) && obj(list0) != obj(list1)
    invariant listDone(r, list0, cmd.List[0], len(cmd.List[0]))
    invariant listDone(r, list1, cmd.List[1], $k)
    endhint len(list1) >= len(head(list1)) && (forall q in 0..len(head(list1)) :: list1[q] == head(list1[q]))
    endhint forall q in 0..len(list0) :: list0[q] == head(list0[q])
    endhint listDone(r, list0, cmd.List[0], len(cmd.List[0]))
    endhint lastOne(r, list1, cmd.List[1], $k - 1)
    endhint inOne(r, list1, cmd.List[1], $k - 1)
    endhint listDone(r, list1, cmd.List[1], $k - 1)
  loop 3
    invariant vprev(r, fr, $k0) && 0 <= k0 && vl3(r, cmd, list0, list1)
    invariant allSees(r, seesList0, list0, k0)
  loop 4
    invariant vprev(r, fr, $k0) && vl3(r, cmd, list0, list1)
    invariant allSees(r, seesList0, list0, k0) && seesDone(r, seesList0, list0, k0, $k)
  loop 5
    invariant sawSet(r, cmd.List[0], seesList0)
    invariant vprev(r, fr, $k0) && 0 <= k1 && vl3(r, cmd, list0, list1)
    invariant allSees(r, seesList1, list1, k1)
  loop 6
    invariant sawSet(r, cmd.List[0], seesList0)
    invariant vprev(r, fr, $k0) && vl3(r, cmd, list0, list1)
    invariant allSees(r, seesList1, list1, k1) && seesDone(r, seesList1, list1, k1, $k)
  loop 7
    invariant vprev(r, fr, $k0) && 0 <= k0 && vl3(r, cmd, list0, list1)
    invariant sawSet(r, cmd.List[0], seesList0) && sawSet(r, cmd.List[1], seesList1)
    invariant allSeen(r, seenFromList0, list0, k0)
  loop 8
    invariant vprev(r, fr, $k0) && vl3(r, cmd, list0, list1)
    invariant sawSet(r, cmd.List[0], seesList0) && sawSet(r, cmd.List[1], seesList1)
    invariant allSeen(r, seenFromList0, list0, k0) && seenDone(r, seenFromList0, list0, k0, $k)
  loop 9
    invariant vprev(r, fr, $k0) && 0 <= k1 && vl3(r, cmd, list0, list1)
    invariant sawSet(r, cmd.List[0], seesList0) && sawSet(r, cmd.List[1], seesList1) && seenSet(r, cmd.List[0], seenFromList0)
    invariant allSeen(r, seenFromList1, list1, k1)
  loop 10
    invariant vprev(r, fr, $k0) && vl3(r, cmd, list0, list1)
    invariant sawSet(r, cmd.List[0], seesList0) && sawSet(r, cmd.List[1], seesList1) && seenSet(r, cmd.List[0], seenFromList0)
    invariant allSeen(r, seenFromList1, list1, k1) && seenDone(r, seenFromList1, list1, k1, $k)
  loop 11
    invariant sets4(r, cmd, seesList0, seesList1, seenFromList0, seenFromList1)
    invariant vprev(r, fr, $k0)
    invariant through(r, seesList0, seenFromList1, $k)
  loop 12
    invariant sets4(r, cmd, seesList0, seesList1, seenFromList0, seenFromList1)
    invariant vprev(r, fr, $k0)
    invariant through(r, seesList0, seenFromList1, $k11) && (forall y in 0..$k :: seenFromList1[y] ==> visAt(r, i, y))
  loop 13
    invariant sets4(r, cmd, seesList0, seesList1, seenFromList0, seenFromList1)
    invariant vprev(r, fr, $k0)
    invariant vortSide(r, fr, $k0, 0)
    invariant through(r, seesList1, seenFromList0, $k)
  loop 14
    invariant sets4(r, cmd, seesList0, seesList1, seenFromList0, seenFromList1)
    invariant vprev(r, fr, $k0)
    invariant vortSide(r, fr, $k0, 0)
    invariant through(r, seesList1, seenFromList0, $k13) && (forall y in 0..$k :: seenFromList0[y] ==> visAt(r, i, y))
endfor

// DISTANCE: whether a point is at least the limit away from every point of a line
extern bits.Mul64(x, y) (hi, lo)
  ensures hi * 18446744073709551616 + lo == x * y
define sqDist(p, q) = (p.X - q.X) * (p.X - q.X) + (p.Y - q.Y) * (p.Y - q.Y)
define ptOk(p) = small16(p.X) && small16(p.Y)
define along(l, p) = l.DX * (p.X - l.start.X) + l.DY * (p.Y - l.start.Y)
define across(l, p) = l.DX * (p.Y - l.start.Y) - l.DY * (p.X - l.start.X)
define farFrom(l, p, max) = ite(along(l, p) <= 0, sqDist(p, l.start) >= max, ite(along(l, p) >= l.H, sqDist(p, l.end) >= max, across(l, p) * across(l, p) >= max * l.H))
define lnH(l) = lnOk(l) && l.H == l.DX * l.DX + l.DY * l.DY
foreach T in RejectWork FastRejectWork
func $T.mapDistance(r, p1, p2)
  requires ptOk(p1) && ptOk(p2)
  ensures result == sqDist(p1, p2)
func $T.pointTooFar(r, p, line)
  requires ptOk(p) && lnH(line)
  ensures result == farFrom(line, p, r.maxDistance)
func $T.linesTooFarApart(r, srcLine, tgtLine)
  requires lnH(srcLine) && lnH(tgtLine)
  ensures result == (r.maxDistance != UNLIMITED_DISTANCE && farFrom(tgtLine, srcLine.start, r.maxDistance) && farFrom(tgtLine, srcLine.end, r.maxDistance) && farFrom(srcLine, tgtLine.start, r.maxDistance) && farFrom(srcLine, tgtLine.end, r.maxDistance))
endfor

// GROUP: whatever the options say, groups and their members are sectors of the
// map (that every sector is in exactly one group is bounded only)
define gMem(g) = forall x in 0..len(g) :: forall q in 0..len(g[x].sectors) :: 0 <= g[x].sectors[q] < len(g)
define gOk(g) = (forall x in 0..len(g) :: 0 <= g[x].parent < len(g) && 0 <= g[x].minRepresentative < len(g) && allocated(g[x].sectors)) && gMem(g)
func RMBFrame.loadGroupsForFrame(fr, groups)
  requires chain2(fr) && 1 <= len(groups) <= 65536 && gOk(groups)
  modifies groups[*].legal, groups[*].sectors, groups[*].parent, groups[*].minRepresentative, any(int)
  ensures gOk(groups)
  loop 0
    invariant gOk(groups)
  loop 1
    invariant 0 <= grI < len(groups) && gOk(groups)
  loop 2
    invariant 0 <= grI < len(groups) && 0 <= v < len(groups) && gOk(groups)
    invariant allocated(joined) && forall q in 0..len(joined) :: 0 <= joined[q] < len(groups)
func RMBFrame.LoadGroups(fr, numSectors) (any, groups)
  requires chain2(fr) && 1 <= numSectors <= 65536
  modifies any(int)
  ensures len(groups) == numSectors && gOk(groups)
  loop 0
    invariant len(ret) == numSectors && fresh(ret)
    invariant forall x in 0..$k :: ret[x].legal && ret[x].parent == x && ret[x].minRepresentative == x && len(ret[x].sectors) == 1 && ret[x].sectors[0] == x && allocated(ret[x].sectors)
    invariant forall x in 0..$k :: forall y in 0..$k :: x != y ==> obj(ret[x].sectors) != obj(ret[y].sectors)

// the half table is only used with options that cannot tell the two directions apart
define twoWay(t) = t != RMB_BLIND && t != RMB_SAFE && t != RMB_SIMPLE_BLIND && t != RMB_SIMPLE_SAFE && t != RMB_INCLUDE && t != RMB_EXCLUDE && t != RMB_LEFT && t != RMB_RIGHT && t != RMB_ONE
define allTwoWay(fr) = forall k in 0..len(fr.Commands) :: twoWay(fr.Commands[k].Type)
func RMBFrame.CompatibleWithSymmetry(fr)
  requires chain2(fr)
  ensures fr == nil ==> result
  ensures fr != nil && result ==> allTwoWay(fr)
  ensures fr != nil && result && fr.Parent != nil ==> allTwoWay(fr.Parent)
  ensures fr != nil && result && hasCmd(fr, RMB_NOPROCESS) ==> onlyNP(fr)
  loop 0
    invariant forall k in 0..$k :: twoWay(fr.Commands[k].Type)
    invariant !tainted ==> (forall k in 0..$k :: fr.Commands[k].Type == RMB_NOPROCESS)
    invariant tainted ==> (exists k in 0..$k :: fr.Commands[k].Type != RMB_NOPROCESS)
    invariant nop == (exists k in 0..$k :: fr.Commands[k].Type == RMB_NOPROCESS)

// LENGTH: sectors further apart than the limit are hidden from each other
define limited(r, a, b, t) = ite(r.maxLength < 65535 && dAt(r, a, b) > r.maxLength && t == VIS_UNKNOWN, VIS_HIDDEN, t)
define limDone(a, b, i, j) = a != b && ite(a < b, a < i || a == i && b < j, b < i || b == i && a < j)
foreach T in RejectWork FastRejectWork
func $T.ApplyDistanceLimits(r)
  requires tblOk(r) && dtOk(r) && chain2(r.rmbFrame)
  modifies r.rejectTable[*], r.maxLength
  hint forall a, b in 0..r.numSectors :: posIn(r.numSectors, a, b)
  hint forall a, b in 0..r.numSectors :: bandSym(r.numSectors, a, b)
  callhint markVisibilitySector: reveal(cpos(r.numSectors, $arg1, $arg2))
  callhint markVisibilitySector: reveal(cpos(r.numSectors, $arg2, $arg1))
  ensures r.maxLength <= old(r.maxLength)
  ensures forall a, b in 0..r.numSectors :: a != b ==> cellAt(r, a, b) == limited(r, a, b, old(cellAt(r, a, b)))
  ensures forall a in 0..r.numSectors :: cellAt(r, a, a) == old(cellAt(r, a, a))
  loop 0
    invariant 0 <= i <= r.numSectors
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(limDone(a, b, i, 0), limited(r, a, b, old(cellAt(r, a, b))), old(cellAt(r, a, b)))
  loop 1
    invariant i + 1 <= j <= r.numSectors
    invariant forall a, b in 0..r.numSectors :: cellAt(r, a, b) == ite(limDone(a, b, i, j), limited(r, a, b, old(cellAt(r, a, b))), old(cellAt(r, a, b)))
endfor

// LINE makes a line solid, whatever LEFT and RIGHT say about it
func RejectInternalSetup.HasRMBEffectLINE(r, lineIdx)
  ensures r.lineEffects == nil ==> !result
  ensures r.lineEffects != nil ==> result == (has(r.lineEffects, lineIdx) && r.lineEffects[lineIdx] == LINE_EFFECT_SOLID)
define lineSolid(r, x) = has(r.lineEffects, x) && r.lineEffects[x] == LINE_EFFECT_SOLID
define linesDone(r, fr, K) = forall k in 0..K :: fr.Commands[k].Type == RMB_LINE && 0 <= fr.Commands[k].Data[0] <= 65535 ==> lineSolid(r, fr.Commands[k].Data[0])
func RejectInternalSetup.loadLineEffectsForFrame(r, rmbFrame)
  requires chain2(rmbFrame) && r.lineEffects != nil
  modifies r.lineEffects[*]
  ensures forall x in 0..65536 :: old(lineSolid(r, x)) ==> lineSolid(r, x)
  ensures rmbFrame != nil ==> linesDone(r, rmbFrame, len(rmbFrame.Commands))
  ensures rmbFrame != nil && rmbFrame.Parent != nil ==> linesDone(r, rmbFrame.Parent, len(rmbFrame.Parent.Commands))
  loop 0
    invariant forall x in 0..65536 :: old(lineSolid(r, x)) ==> lineSolid(r, x)
    invariant linesDone(r, rmbFrame, $k)
    invariant rmbFrame.Parent != nil ==> linesDone(r, rmbFrame.Parent, len(rmbFrame.Parent.Commands))

property R07: RejectWork.distanceTableIJ FastRejectWork.distanceTableIJ RejectWork.applyBlind FastRejectWork.applyBlind RejectWork.applySafe FastRejectWork.applySafe rmbGetSector RejectWork.rmbGetGroup FastRejectWork.rmbGetGroup RejectWork.prepareBlind FastRejectWork.prepareBlind RejectWork.prepareSafe FastRejectWork.prepareSafe lemma:simpleIsBand RejectWork.applySimpleBlind FastRejectWork.applySimpleBlind RejectWork.applySimpleSafe FastRejectWork.applySimpleSafe RMBFrame.processDistanceUsingOptions RMBFrame.FastprocessDistanceUsingOptions RMBFrame.processSimpleBlindSafeOptions RMBFrame.FastprocessSimpleBlindSafeOptions RMBFrame.hasSimpleBlindSafe RMBFrame.NeedDistances RMBFrame.HasOptionTrickyForGroups RMBFrame.HasLineEffects RMBFrame.checkTrivialBlindSafe RMBFrame.GetLENGTHValue RMBFrame.GetDISTANCEValue RMBFrame.processINCLUDEs RMBFrame.FastprocessINCLUDEs RMBFrame.processEXCLUDEs RMBFrame.FastprocessEXCLUDEs RMBFrame.vortexesFirstStage RMBFrame.FastvortexesFirstStage RMBFrame.vortexesSecondStage RMBFrame.FastvortexesSecondStage RMBFrame.vortexesThirdStage RMBFrame.FastvortexesThirdStage otherVortexList RMBFrame.getAllVortexes RMBFrame.FastgetAllVortexes RejectWork.mapDistance FastRejectWork.mapDistance RejectWork.pointTooFar FastRejectWork.pointTooFar RejectWork.linesTooFarApart FastRejectWork.linesTooFarApart RMBFrame.LoadGroups RMBFrame.loadGroupsForFrame RMBFrame.CompatibleWithSymmetry RejectWork.ApplyDistanceLimits FastRejectWork.ApplyDistanceLimits RejectInternalSetup.HasRMBEffectLINE RejectInternalSetup.loadLineEffectsForFrame rmbCheckSectorInRange RejectWork.forceVisibility FastRejectWork.forceVisibility
bounded R07: parsing of the options file, the distances between sectors (CreateDistanceTable, BFS, GroupBFS), the partition of sectors into groups (that every sector is in exactly one), what lists of different VORTEX options see of each other, that VORTEX makes no more visible than it should, RMBFrame.convertBlindSafe, the order in which ProcessOptionsRMB applies options and the reports are not proved: random maps and options files through the whole program, every bit of REJECT and every line of the report compared with what the manual says
