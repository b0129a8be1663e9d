------------------------------ MODULE Reading ------------------------------
(***************************************************************************)
(* The reading rules: which syllables can be read from a text at a given   *)
(* position.                                                               *)
(*                                                                         *)
(* Every rule is a constant-level operator.  Its value is a set of arcs    *)
(*   [to, lk, seg, tn]                                                     *)
(* : the written syllable that begins at the position considered can be    *)
(* read with the segments seg and the tone tn, and reading resumes at      *)
(* position `to'.  seg is the four-letter code of the spoken syllable; if  *)
(* a half syllable comes before it, seg is "half+full", and tn has two     *)
(* tones.  lk says that the syllable is linked, that is, its final         *)
(* consonant is read once more as the beginning of the next syllable       *)
(* (`to' is then the position of that consonant).                          *)
(*                                                                         *)
(* Reading is confined to [from, stop): stop is the end of the current     *)
(* word token.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Ortho

At(t, p) == t[p + 1]

NoSyl == [seg |-> "", tn |-> ""]

(***************************************************************************)
(* Onsets.  An onset is what has been read of the syllable after its       *)
(* initial consonants: position, half syllable before it (or NoSyl),       *)
(* initial sound, class in force for the tone, second initial, vowel ("*"  *)
(* if still open) and whether the syllable is already complete.            *)
(***************************************************************************)
Onset(pos, pre, ic, cls, ic2, v, done) ==
  [pos |-> pos, pre |-> pre, ic |-> ic, cls |-> cls, ic2 |-> ic2, v |-> v,
   done |-> done]

Simple(pos, c)          == Onset(pos, NoSyl, Sound(c), Class(c), "_", "*", FALSE)
Cluster(pos, c, second) == Onset(pos, NoSyl, Sound(c), Class(c), second, "*", FALSE)

(* Unstressed -a and -au syllables written with a bare consonant *)
HalfA(c)  == [seg |-> Sound(c) \o "_a_+",
              tn |-> Tone(Class(c), "0", TRUE, TRUE)]
HalfAu(c) == [seg |-> Sound(c) \o "_C_+",
              tn |-> Tone(Class(c), "0", FALSE, FALSE)]

(* Consonant clusters *)
FalseRa       == {CHO_CHAN, SO_SO, SO_SALA, SO_SUA}      \* ra is silent
TrueRaUnlinked == {KHO_KHAI, KHO_KHWAI, DO_DEK, THO_THAHAN, BO_BAIMAI,
                   PHO_PHAN, FO_FAN}
TrueRa        == {KO_KAI, TO_TAO, PO_PLA}                \* also when linked
TrueLa        == {KO_KAI, KHO_KHAI, KHO_KHWAI, BO_BAIMAI, PO_PLA, PHO_PHUNG,
                  PHO_PHAN, FO_FAN}
TrueWa        == {KO_KAI, KHO_KHAI, KHO_KHWAI}
(* consonants that can be read -au before ra-: torament, tharani, ... *)
AuRa          == {KO_KAI, KHO_KHWAI, CHO_CHAN, THO_THAHAN, THO_THONG, NO_NU,
                  BO_BAIMAI, PO_PLA, PHO_SAMPHAO, MO_MA, WO_WAEN, SO_SUA,
                  HO_HIP, O_ANG}
(* Consonant + ru *)
RiCluster     == {KO_KAI, TO_TAO, THO_THAHAN, PO_PLA}
RiEither      == {SO_SUA, SO_SALA}
RueCluster    == {WO_WAEN}
RueSeparate   == {NO_NU}
RueEither     == {KHO_KHWAI, PHO_PHAN}

RaSyllable(pos, c, v) == Onset(pos, HalfAu(c), "r", "S", "_", v, TRUE)

(* Two consonants c d at pos; lk: the first one was linked from before *)
OnsetsCC(t, pos, stop, lk) ==
  LET c == At(t, pos)
      d == At(t, pos + 1)
      more == pos + 2 < stop
      x == IF more THEN At(t, pos + 2) ELSE 0
      rahan == more /\ d = RO_RUA /\ x = RO_RUA       \* c + ro han
      ra ==
        IF d # RO_RUA \/ rahan THEN {}
        ELSE (IF c \in FalseRa /\ ~lk THEN {Simple(pos + 2, c)} ELSE {})
             \cup
             (IF c \in TrueRa \/ (c \in TrueRaUnlinked /\ ~lk)
                THEN {Cluster(pos + 2, c, "r")} ELSE {})
             \cup
             (IF ~more THEN {}
              ELSE IF IsSylStart(x)
                THEN (IF c \in AuRa THEN {RaSyllable(pos + 2, c, "a")} ELSE {})
              ELSE IF x = SARA_I /\ c = BO_BAIMAI
                THEN {RaSyllable(pos + 3, c, "i")}
              ELSE IF x = SARA_A /\ c = CHO_CHAN
                THEN {RaSyllable(pos + 3, c, "a")}
              ELSE {})
      la == IF d = LO_LING /\ c \in TrueLa /\ ~lk
              THEN {Cluster(pos + 2, c, "l")} ELSE {}
      wa == IF d = WO_WAEN /\ c \in TrueWa /\ ~lk
              THEN {Cluster(pos + 2, c, "w")} ELSE {}
      \* ho nam: the high class of ho hip is lent to a low sonorant
      honam == IF c = HO_HIP /\ Class(d) = "S" /\ ~rahan
                 THEN {Onset(pos + 2, NoSyl, Sound(d), "H", "_", "*", FALSE)}
                 ELSE {}
      \* akson nam: c is read c-a, and lends its class to a sonorant d
      aksonnam == IF rahan THEN {}
                  ELSE {Onset(pos + 2, HalfA(c), Sound(d),
                              IF Class(d) = "S" THEN Class(c) ELSE Class(d),
                              "_", "*", FALSE)}
      bodi == IF c = BO_BAIMAI /\ d = DO_DEK /\ more
                 /\ (x = SARA_I \/ x = SARA_II)
                THEN {Onset(pos + 1, NoSyl, Sound(c), Class(c), "_", "C", TRUE)}
                ELSE {}
  IN ra \cup la \cup wa \cup honam \cup aksonnam \cup bodi

(* Consonant followed by ru *)
OnsetsCRu(t, pos, stop) ==
  LET c == At(t, pos)
      more == pos + 2 < stop
      x == IF more THEN At(t, pos + 2) ELSE 0
      clus(v) == Onset(pos + 2, NoSyl, Sound(c), Class(c), "r", v, FALSE)
      sep(cls, v, done) == Onset(pos + 2, HalfA(c), "r", cls, "_", v, done)
  IN CASE more /\ (x = LAKKHANGYAO \/ x = SARA_AA) -> {}
       [] c \in RiCluster -> {clus("i")}
       [] c \in RiEither ->
            {Onset(pos + 2, NoSyl, Sound(c), Class(c), "_", "i", FALSE),
             sep(Class(c), "i", FALSE)}
       [] c \in RueCluster -> {clus("v")}
       [] c \in RueSeparate -> {sep("S", "v", FALSE)}
       [] c \in RueEither ->
            IF more /\ IsCons(x) /\ EndSound(x) # "_"
              THEN {clus("v")} ELSE {sep("S", "v", TRUE)}
       [] OTHER ->
            {sep("S", "i", FALSE), sep("S", "v", FALSE), sep("S", "v", TRUE)}
            \cup (IF c = HO_HIP THEN {} ELSE {clus("i"), clus("v")})

Onsets(t, pos, stop, lk) ==
  IF pos >= stop THEN {}
  ELSE LET c == At(t, pos)
           more == pos + 1 < stop
           d == IF more THEN At(t, pos + 1) ELSE 0
       IN IF ~IsCons(c) THEN {}
          ELSE (IF more /\ IsCons(d) THEN OnsetsCC(t, pos, stop, lk)
                ELSE IF d = RU THEN OnsetsCRu(t, pos, stop) ELSE {})
               \cup {Simple(pos + 1, c)}
               \cup (IF more /\ IsSylStart(d)
                       THEN {Onset(pos + 1, NoSyl, Sound(c), Class(c), "_",
                                   "a", TRUE)}
                       ELSE {})

(***************************************************************************)
(* Silenced letters (karan).  Each operator gives the position after the   *)
(* silenced letters at pos, or pos if there are none.                      *)
(***************************************************************************)
KaranC(t, pos, stop) ==
  IF pos + 1 < stop /\ At(t, pos + 1) = THANTHAKHAT /\ IsCons(At(t, pos))
    THEN pos + 2 ELSE pos

KaranIU(t, pos, stop) ==
  IF pos + 2 < stop /\ At(t, pos + 2) = THANTHAKHAT /\ IsCons(At(t, pos))
     /\ (At(t, pos + 1) = SARA_I \/ At(t, pos + 1) = SARA_U)
    THEN pos + 3 ELSE pos

KaranAny(t, pos, stop) ==
  IF KaranC(t, pos, stop) # pos THEN KaranC(t, pos, stop)
  ELSE IF pos + 2 < stop /\ At(t, pos + 2) = THANTHAKHAT /\ IsCons(At(t, pos))
          /\ IsCons(At(t, pos + 1))
    THEN pos + 3
  ELSE KaranIU(t, pos, stop)

(***************************************************************************)
(* Codas                                                                   *)
(***************************************************************************)
Arc(to, lk, o, v, e, mark) ==
  [to |-> to, lk |-> lk, seg |-> o.pre.seg \o o.ic \o o.ic2 \o v \o e,
   tn |-> o.pre.tn \o Tone(o.cls, mark, IsDead(v, e), IsShort(v))]

(* An open syllable (or one whose final is already given by its vowel) *)
Open(to, o, v, e, mark) == {Arc(to, FALSE, o, v, e, mark)}

IsEndCons(c, excl) == IsCons(c) /\ EndSound(c) # "_" /\ c \notin excl

(* A final consonant at pos, never linked *)
EndSimple(t, pos, stop, o, v, mark, excl) ==
  IF pos < stop /\ IsEndCons(At(t, pos), excl)
    THEN Open(KaranAny(t, pos + 1, stop), o, v, EndSound(At(t, pos)), mark)
    ELSE {}

AfterClusterVowels == {RU, SARA_A, MAI_HAN_AKAT, SARA_AA, SARA_I, SARA_II,
                       SARA_U, SARA_UU}
EndWithRo == {KO_KAI, KHO_KHWAI, CHO_CHANG, TO_TAO, THO_THAHAN}
EndWithIU == {THO_PHUTHAO, TO_TAO, THO_THONG, RO_RUA}

(* A final consonant at pos which may carry a silent ro or i/u, and may be *)
(* linked to the next syllable                                             *)
EndComplex(t, pos, stop, o, v, mark, excl) ==
  IF ~(pos < stop /\ IsEndCons(At(t, pos), excl)) THEN {}
  ELSE
    LET c == At(t, pos)
        e == EndSound(c)
        karan == KaranAny(t, pos + 1, stop)
        d == IF pos + 1 < stop THEN At(t, pos + 1) ELSE 0
        atEnd2 == pos + 2 >= stop
        sylStart2 == atEnd2 \/ IsSylStart(At(t, pos + 2))
        silentRo == d = RO_RUA /\ c \in EndWithRo /\ sylStart2
        silentIU == (d = SARA_I \/ d = SARA_U) /\ c \in EndWithIU /\ sylStart2
        next == IF IsCons(d) THEN (IF atEnd2 THEN 0 ELSE At(t, pos + 2)) ELSE d
        linkable == /\ next # 0
                    /\ ~(silentIU /\ atEnd2)
                    /\ (next \in AfterClusterVowels \/ IsCons(next))
    IN Open(karan, o, v, e, mark)
       \cup (IF karan > pos + 1 THEN {}
             ELSE (IF silentRo \/ silentIU THEN Open(pos + 2, o, v, e, mark)
                   ELSE {})
                  \cup (IF linkable THEN {Arc(pos, TRUE, o, v, e, mark)}
                        ELSE {}))

(***************************************************************************)
(* Syllables that begin with a consonant                                   *)
(***************************************************************************)
MarkAt(t, pos, stop) ==
  IF pos < stop /\ IsTone(At(t, pos)) THEN ToneMark(At(t, pos)) ELSE "0"
PastMark(t, pos, stop) ==
  IF pos < stop /\ IsTone(At(t, pos)) THEN pos + 1 ELSE pos

(* o points at mai han akat *)
RhymeHanAkat(t, stop, o) ==
  LET p1 == o.pos + 1
      mark == MarkAt(t, p1, stop)
      p == PastMark(t, p1, stop)
  IN IF p >= stop THEN {}
     ELSE IF At(t, p) = WO_WAEN
       THEN LET short == p + 1 < stop /\ At(t, p + 1) = SARA_A
                q == IF short THEN p + 2 ELSE p + 1
            IN Open(KaranC(t, q, stop), o, IF short THEN "t" ELSE "T", "_", mark)
     ELSE IF mark = "0" THEN EndComplex(t, p, stop, o, "a", mark, {})
     ELSE EndSimple(t, p, stop, o, "a", mark, {})

(* o points at a vowel sign above or below *)
RhymeAboveBelow(t, stop, o) ==
  LET v == AboveBelowVowel(At(t, o.pos))
      mark == MarkAt(t, o.pos + 1, stop)
      p == PastMark(t, o.pos + 1, stop)
      k == KaranC(t, p, stop)
      iu == KaranIU(t, p, stop)
      openOK == p >= stop \/ IsLdVowel(At(t, p)) \/ v # "V"
      q == IF openOK THEN k ELSE p
      excl == IF v = "i" \/ v = "I" THEN {YO_YAK} ELSE {}
  IN IF openOK /\ k = p /\ iu # p THEN Open(iu, o, v, "_", mark)
     ELSE (IF openOK THEN Open(k, o, v, "_", mark) ELSE {})
          \cup
          (IF q >= stop \/ IsLdVowel(At(t, q)) THEN {}
           ELSE IF v = "V"
             THEN (IF At(t, q) = O_ANG
                     THEN Open(KaranC(t, q + 1, stop), o, v, "_", mark)
                     ELSE EndSimple(t, q, stop, o, v, mark, {}))
           ELSE IF v = "v" \/ mark # "0"
             THEN EndSimple(t, q, stop, o, v, mark, excl)
           ELSE EndComplex(t, q, stop, o, v, mark, excl))

(* o points at mai taikhu: only short -o with a final *)
RhymeTaikhu(t, stop, o) ==
  LET p == o.pos + 1
  IN IF p + 1 < stop /\ At(t, p) = O_ANG
       THEN EndSimple(t, KaranC(t, p + 1, stop), stop, o, "c", "0", {})
       ELSE {}

(* Everything else: optional tone mark, then a following vowel or a final *)
RhymePlain(t, stop, o) ==
  LET mark == MarkAt(t, o.pos, stop)
      p == PastMark(t, o.pos, stop)
  IN IF p >= stop THEN {}
     ELSE LET c == At(t, p) k == KaranC(t, p + 1, stop) IN
       CASE c = SARA_A  -> Open(k, o, "a", "_", mark)
         [] c = SARA_AA -> Open(k, o, "A", "_", mark)
                           \cup EndComplex(t, k, stop, o, "A", mark, {})
         [] c = SARA_AM -> Open(k, o, "a", "m", mark)
         [] c = WO_WAEN -> EndSimple(t, p + 1, stop, o, "T", mark, {})
         [] c = O_ANG   -> Open(k, o, "C", "_", mark)
                           \cup EndSimple(t, k, stop, o, "C", mark, {})
         [] c = RO_RUA  ->
              LET isRa == o.ic = "r"
                  q == IF isRa THEN p + 1 ELSE k
                  rohan == q < stop /\ At(t, q) = RO_RUA
                  k2 == KaranC(t, q + 1, stop)
              IN (IF isRa THEN {} ELSE Open(k, o, "C", "n", mark))
                 \cup (IF ~rohan THEN {}
                       ELSE Open(k2, o, "a", "n", mark)
                            \cup (IF k2 = q + 1
                                    THEN EndComplex(t, k2, stop, o, "a", mark, {})
                                    ELSE {}))
         [] OTHER -> {}

(* A bare consonant after the onset: inherent -o-, or final after c + ru *)
RhymeInherent(t, stop, o, lk) ==
  LET mark == MarkAt(t, o.pos, stop)
      p == PastMark(t, o.pos, stop)
  IN IF p >= stop THEN {}
     ELSE LET c == At(t, p) IN
       IF ~IsCons(c) \/ c \in {WO_WAEN, O_ANG, RO_RUA} THEN {}
       ELSE IF o.v = "*"
         THEN (IF o.ic2 # "w" /\ ~lk
                 THEN EndSimple(t, p, stop, o, "o", mark, {YO_YAK, WO_WAEN})
                 ELSE {})
       ELSE Open(p, o, o.v, "_", mark)
            \cup EndComplex(t, p, stop, o, o.v, mark, {WO_WAEN})

ConsArcs(t, pos, stop, lk) ==
  UNION { IF o.pos >= stop THEN {}
          ELSE IF o.done THEN Open(o.pos, o, o.v, "_", "0")
          ELSE LET c == At(t, o.pos) IN
               CASE c = MAI_HAN_AKAT -> RhymeHanAkat(t, stop, o)
                 [] IsUpVowel(c) \/ IsBlVowel(c) -> RhymeAboveBelow(t, stop, o)
                 [] c = MAITAIKHU -> RhymeTaikhu(t, stop, o)
                 [] OTHER -> RhymePlain(t, stop, o)
                             \cup RhymeInherent(t, stop, o, lk)
        : o \in Onsets(t, pos, stop, lk) }

(***************************************************************************)
(* Syllables that begin with the leading vowel sara e                      *)
(***************************************************************************)
(* half-syllable + ae would misread words such as thoe *)
AllowsE(o) == o.pre = NoSyl \/ o.ic # "?"

RhymeE(t, stop, o) ==
  LET m0 == "0" p0 == o.pos IN
  IF p0 >= stop
    THEN (IF AllowsE(o) THEN Open(p0, o, "E", "_", m0) ELSE {})
  ELSE LET c == At(t, p0)
           p1 == p0 + 1
           mk == MarkAt(t, p1, stop)
           pm == PastMark(t, p1, stop)
  IN CASE c = SARA_I ->
            EndSimple(t, KaranC(t, pm, stop), stop, o, "W", mk, {})
       [] c = SARA_II ->
            IF pm >= stop \/ At(t, pm) # YO_YAK THEN {}
            ELSE LET short == pm + 1 < stop /\ At(t, pm + 1) = SARA_A
                     q == KaranC(t, IF short THEN pm + 2 ELSE pm + 1, stop)
                 IN IF short THEN Open(q, o, "y", "_", mk)
                    ELSE Open(q, o, "Y", "_", mk)
                         \cup EndComplex(t, q, stop, o, "Y", mk, {})
       [] c = SARA_UEE ->
            IF pm >= stop \/ At(t, pm) # O_ANG THEN {}
            ELSE LET short == pm + 1 < stop /\ At(t, pm + 1) = SARA_A
                     q == KaranC(t, IF short THEN pm + 2 ELSE pm + 1, stop)
                 IN IF short THEN Open(q, o, "z", "_", mk)
                    ELSE Open(q, o, "Z", "_", mk)
                         \cup EndSimple(t, q, stop, o, "Z", mk, {})
       [] c = MAITAIKHU -> EndSimple(t, p1, stop, o, "e", m0, {})
       [] OTHER ->
         LET mark == MarkAt(t, p0, stop)
             p == PastMark(t, p0, stop)
         IN IF p >= stop THEN Open(p, o, "E", "_", mark)
            ELSE LET x == At(t, p)
                     nextA == p + 1 < stop /\ At(t, p + 1) = SARA_A
                     qa == KaranC(t, IF nextA THEN p + 2 ELSE p + 1, stop)
                     k == KaranC(t, p, stop)
                 IN
              CASE x = O_ANG ->
                     (IF AllowsE(o) THEN Open(k, o, "E", "_", mark) ELSE {})
                     \cup Open(qa, o, IF nextA THEN "w" ELSE "W", "_", mark)
                [] x = SARA_A ->
                     IF AllowsE(o)
                       THEN Open(KaranC(t, p + 1, stop), o, "e", "_", mark)
                       ELSE {}
                [] x = SARA_AA ->
                     IF nextA THEN Open(qa, o, "c", "_", mark)
                     ELSE Open(qa, o, "a", "w", mark)
                [] x = YO_YAK /\ (p + 1 >= stop \/ IsSylStart(At(t, p + 1))) ->
                     Open(KaranC(t, p + 1, stop), o, "W", "y", mark)
                [] OTHER ->
                     IF AllowsE(o)
                       THEN Open(k, o, "E", "_", mark)
                            \cup EndComplex(t, k, stop, o, "E", mark, {})
                       ELSE {}

(***************************************************************************)
(* Syllables that begin with another leading vowel ldv                     *)
(***************************************************************************)
RhymeLd(t, stop, o, ldv) ==
  LET mark == MarkAt(t, o.pos, stop)
      p == PastMark(t, o.pos, stop)
      x == IF p < stop THEN At(t, p) ELSE 0
      k == KaranC(t, p, stop)
      k1 == KaranC(t, p + 1, stop)
      iu(q) == KaranIU(t, q, stop)
  IN CASE ldv = SARA_AE ->
            (CASE x = SARA_A -> Open(k1, o, "x", "_", mark)
               [] x = MAITAIKHU -> EndSimple(t, p + 1, stop, o, "x", mark, {})
               [] OTHER -> Open(k, o, "X", "_", mark)
                           \cup EndSimple(t, k, stop, o, "X", mark, {}))
       [] ldv = SARA_O ->
            LET short == x = SARA_A
                q == IF short THEN p + 1 ELSE p
                kq == KaranC(t, q, stop)
                v == IF short THEN "o" ELSE "O"
            IN IF kq = q /\ iu(q) # q THEN Open(iu(q), o, v, "_", mark)
               ELSE Open(kq, o, v, "_", mark)
                    \cup (IF short THEN {}
                          ELSE EndComplex(t, kq, stop, o, v, mark, {}))
       [] ldv = AI_MAIMALAI ->
            (IF x = YO_YAK /\ (p + 1 = stop \/ IsSylStart(At(t, p + 1)))
               THEN Open(p + 1, o, "a", "y", mark) ELSE {})
            \cup Open(k, o, "a", "y", mark)
       [] ldv = AI_MAIMUAN -> Open(k, o, "a", "y", mark)

LeadArcs(t, pos, stop, lk) ==
  UNION { IF o.done THEN {}
          ELSE IF At(t, pos) = SARA_E THEN RhymeE(t, stop, o)
          ELSE RhymeLd(t, stop, o, At(t, pos))
        : o \in Onsets(t, pos + 1, stop, lk) }

(***************************************************************************)
(* ru and lu as syllables of their own                                     *)
(***************************************************************************)
RiFinals == {NO_NEN, THO_THAHAN, SO_RUSI}

RuLuArcs(t, pos, stop) ==
  LET o == Onset(pos + 1, NoSyl, IF At(t, pos) = LU THEN "l" ELSE "r", "S",
                 "_", "*", FALSE)
      p == pos + 1
  IN IF p >= stop THEN Open(p, o, "v", "_", "0")
     ELSE LET c == At(t, p) IN
       CASE c = LAKKHANGYAO \/ c = SARA_AA -> Open(p + 1, o, "V", "_", "0")
         [] IsCons(c) ->
              IF EndSound(c) = "_"
                 \/ (p + 1 < stop /\ ~IsSylStart(At(t, p + 1)))
                THEN Open(p, o, "v", "_", "0")
                ELSE EndComplex(t, p, stop, o,
                                IF c \in RiFinals THEN "i" ELSE "v", "0", {})
         [] OTHER -> {}

(* All rule-based readings of the syllable at pos *)
RuleArcs(t, pos, stop, lk) ==
  LET c == At(t, pos)
  IN CASE IsCons(c) -> ConsArcs(t, pos, stop, lk)
       [] IsLdVowel(c) -> LeadArcs(t, pos, stop, lk)
       [] c = RU \/ c = LU -> RuLuArcs(t, pos, stop)
       [] OTHER -> {}
=============================================================================
