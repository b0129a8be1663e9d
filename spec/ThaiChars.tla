----------------------------- MODULE ThaiChars -----------------------------
(***************************************************************************)
(* The Thai script as thpronun sees it.  A text is a sequence of UTF-16    *)
(* code units (integers); the character at 0-based position p of a text t  *)
(* is t[p+1].                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

KO_KAI == \h0E01        KHO_KHAI == \h0E02      KHO_KHUAT == \h0E03
KHO_KHWAI == \h0E04     KHO_KHON == \h0E05      KHO_RAKHANG == \h0E06
NGO_NGU == \h0E07       CHO_CHAN == \h0E08      CHO_CHING == \h0E09
CHO_CHANG == \h0E0A     SO_SO == \h0E0B         CHO_CHOE == \h0E0C
YO_YING == \h0E0D       DO_CHADA == \h0E0E      TO_PATAK == \h0E0F
THO_THAN == \h0E10      THO_NANGMONTHO == \h0E11 THO_PHUTHAO == \h0E12
NO_NEN == \h0E13        DO_DEK == \h0E14        TO_TAO == \h0E15
THO_THUNG == \h0E16     THO_THAHAN == \h0E17    THO_THONG == \h0E18
NO_NU == \h0E19         BO_BAIMAI == \h0E1A     PO_PLA == \h0E1B
PHO_PHUNG == \h0E1C     FO_FA == \h0E1D         PHO_PHAN == \h0E1E
FO_FAN == \h0E1F        PHO_SAMPHAO == \h0E20   MO_MA == \h0E21
YO_YAK == \h0E22        RO_RUA == \h0E23        RU == \h0E24
LO_LING == \h0E25       LU == \h0E26            WO_WAEN == \h0E27
SO_SALA == \h0E28       SO_RUSI == \h0E29       SO_SUA == \h0E2A
HO_HIP == \h0E2B        LO_CHULA == \h0E2C      O_ANG == \h0E2D
HO_NOKHUK == \h0E2E     PAIYANNOI == \h0E2F
SARA_A == \h0E30        MAI_HAN_AKAT == \h0E31  SARA_AA == \h0E32
SARA_AM == \h0E33       SARA_I == \h0E34        SARA_II == \h0E35
SARA_UE == \h0E36       SARA_UEE == \h0E37      SARA_U == \h0E38
SARA_UU == \h0E39       PHINTHU == \h0E3A
SARA_E == \h0E40        SARA_AE == \h0E41       SARA_O == \h0E42
AI_MAIMUAN == \h0E43    AI_MAIMALAI == \h0E44   LAKKHANGYAO == \h0E45
MAIYAMOK == \h0E46      MAITAIKHU == \h0E47
MAI_EK == \h0E48        MAI_THO == \h0E49       MAI_TRI == \h0E4A
MAI_CHATTAWA == \h0E4B  THANTHAKHAT == \h0E4C
DOT == 46               SPACE == 32

(***************************************************************************)
(* Character classes (these are libthai's classes; the harness re-probes   *)
(* libthai and the checks compare, see Classes in TraceOrtho).             *)
(***************************************************************************)
IsThai(c) == c >= \h0E01 /\ c <= \h0E5B

IsCons(c)    == c >= KO_KAI /\ c <= HO_NOKHUK /\ c # RU /\ c # LU
IsLdVowel(c) == c >= SARA_E /\ c <= AI_MAIMALAI
IsUpVowel(c) == c = MAI_HAN_AKAT \/ (c >= SARA_I /\ c <= SARA_UEE)
IsBlVowel(c) == c = SARA_U \/ c = SARA_UU
IsTone(c)    == c >= MAI_EK /\ c <= MAI_CHATTAWA
IsVowel(c)   == \/ c = RU \/ c = LU
                \/ (c >= SARA_A /\ c <= SARA_UU)
                \/ (c >= SARA_E /\ c <= LAKKHANGYAO)

(* Characters that can belong to a Thai word, and to a Thai token *)
IsWordChar(c)  == \/ IsCons(c) \/ IsVowel(c) \/ IsTone(c)
                  \/ c = MAITAIKHU \/ c = THANTHAKHAT
IsTokenChar(c) == c = DOT \/ IsWordChar(c)

(* Characters that can begin a written syllable *)
IsSylStart(c) == IsCons(c) \/ IsLdVowel(c)
=============================================================================
