-------------------------------- MODULE Tables -------------------------------
(* The vocabulary of KTX/ktpro servers: obituaries, flag announcements, match  *)
(* markers and time zone abbreviations.                                        *)
EXTENDS Bytes

Q == B("\"")
(* --- obituaries: texts that follow the player's name --- *)
DeathPhrases == <<
  B(" sleeps with the fishes"), B(" sucks it down"), B(" gulped a load of slime"),
  B(" can't exist on slime alone"), B(" burst into flames"), B(" turned into hot slag"),
  B(" visits the Volcano God"), B(" cratered"), B(" fell to his death"),
  B(" fell to her death"), B(" blew up"), B(" was spiked"), B(" was zapped"),
  B(" ate a lavaball"), B(" died"), B(" tried to leave"), B(" was squished")>>
OwnWeaponPhrases == <<
  B(" tries to put the pin back in"), B(" becomes bored with life"),
  B(" discovers blast radius"), B(" electrocutes himself"), B(" electrocutes herself"),
  B(" railcutes himself"), B(" railcutes herself"), B(" discharges into the slime"),
  B(" discharges into the lava"), B(" discharges into the water"), B(" heats up the water")>>
SuicidePhrase == B(" suicides")
TeamkillPhrases == <<
  B(" squished a teammate"), B(" mows down a teammate"), B(" checks his glasses"),
  B(" checks her glasses"), B(" gets a frag for the other team"), B(" loses another friend")>>
AnonTeamkillPhrases == <<
  B(" was telefragged by his teammate"), B(" was telefragged by her teammate"),
  B(" was crushed by his teammate"), B(" was crushed by her teammate"),
  B(" was jumped by his teammate"), B(" was jumped by her teammate")>>
(* kills: who comes first, text between the names, text after the second name *)
KillPhrases == <<
  [first |-> "killer", mid |-> B(" stomps "), post |-> <<>>],
  [first |-> "killer", mid |-> B(" squishes "), post |-> <<>>],
  [first |-> "killer", mid |-> B(" rips "), post |-> B(" a new one")],
  [first |-> "victim", mid |-> B(" was ax-murdered by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" softens "), post |-> B("'s fall")],
  [first |-> "victim", mid |-> B(" tried to catch "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" was crushed by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" was jumped by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" chewed on "), post |-> B("'s boomstick")],
  [first |-> "victim", mid |-> B(" was body pierced by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" was nailed by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" was railed by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" was telefragged by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" accepts "), post |-> B("'s discharge")],
  [first |-> "victim", mid |-> B(" drains "), post |-> B("'s batteries")],
  [first |-> "victim", mid |-> B(" was lead poisoned by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" accepts "), post |-> B("'s shaft")],
  [first |-> "victim", mid |-> B(" ate 2 loads of "), post |-> B("'s buckshot")],
  [first |-> "victim", mid |-> B(" was perforated by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" was punctured by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" was ventilated by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" ate 8 loads of "), post |-> B("'s buckshot")],
  [first |-> "victim", mid |-> B(" gets a natural disaster from "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" rides "), post |-> B("'s rocket")],
  [first |-> "victim", mid |-> B(" was gibbed by "), post |-> B("'s rocket")],
  [first |-> "victim", mid |-> B(" was straw-cuttered by "), post |-> <<>>],
  [first |-> "victim", mid |-> B(" eats "), post |-> B("'s pineapple")],
  [first |-> "victim", mid |-> B(" was gibbed by "), post |-> B("'s grenade")],
  [first |-> "victim", mid |-> B(" was brutalized by "), post |-> B("'s quad rocket")],
  [first |-> "victim", mid |-> B(" was smeared by "), post |-> B("'s quad rocket")],
  [first |-> "victim", mid |-> B(" was hooked by "), post |-> <<>>]>>
PhraseCount == Len(DeathPhrases) + Len(OwnWeaponPhrases) + 1 + Len(TeamkillPhrases)
               + Len(AnonTeamkillPhrases) + Len(KillPhrases)

(* --- flag announcements (text after the name), in order of precedence --- *)
NL == <<10>>
RedFlag == BH("RED")
BlueFlag == BH("BLUE")
FlagPhrases == <<
  [kind |-> "captures", texts |-> <<
     B(" ") \o BH("captured") \o B(" the ") \o RedFlag \o B(" flag!") \o NL,
     B(" ") \o BH("captured") \o B(" the ") \o BlueFlag \o B(" flag!") \o NL>>],
  [kind |-> "defends", texts |-> <<
     B(" defends the ") \o RedFlag \o B(" flag") \o NL,
     B(" defends the ") \o BlueFlag \o B(" flag") \o NL>>],
  [kind |-> "carrier_aggr", texts |-> <<
     B(" defends ") \o RedFlag \o B("'s flag carrier against an aggressive enemy") \o NL,
     B(" defends ") \o BlueFlag \o B("'s flag carrier against an aggressive enemy") \o NL>>],
  [kind |-> "carrier_defends", texts |-> <<
     B(" defends ") \o RedFlag \o B("'s flag carrier") \o NL,
     B(" defends ") \o BlueFlag \o B("'s flag carrier") \o NL>>],
  [kind |-> "pickups", texts |-> <<
     B(" ") \o BH("got") \o B(" the ") \o RedFlag \o B(" flag!") \o NL,
     B(" ") \o BH("got") \o B(" the ") \o BlueFlag \o B(" flag!") \o NL>>],
  [kind |-> "returns", texts |-> <<
     B(" ") \o BH("returned") \o B(" the ") \o RedFlag \o B(" flag!") \o NL,
     B(" ") \o BH("returned") \o B(" the ") \o BlueFlag \o B(" flag!") \o NL>>],
  [kind |-> "carrier_frags", texts |-> <<
     B(" gets an assist for returning his flag!") \o NL,
     B(" gets an assist for fragging the flag carrier!") \o NL>>]>>
(* counters in the order in which the runner reports them *)
FlagKinds == <<"captures", "pickups", "returns", "carrier_frags", "defends",
               "carrier_defends", "carrier_aggr">>
(* announcements that servers print as a name followed by a continuation *)
ContinuationKinds == {"captures", "pickups", "returns"}

(* --- markers --- *)
MatchdateMark == <<8, 2>> \o B("matchdate: ")
MatchOverMark == B("The match is over")
StandbyMark   == B("4status") \o <<0>> \o B("Standby") \o <<0>>
AbortedMark   == <<8, 2>> \o BH("Match") \o B(" ") \o BH("stopped") \o B(" ") \o BH("by")
                 \o B(" ") \o BH("majority") \o B(" ") \o BH("vote") \o <<10, 0>>
ServerPausedMark == B("Server is paused")
PausedGameMark   == B("paused the game")
EndOfDemoMark == <<0, 2>> \o B("EndOfDemo") \o <<0>>
CmdSpawnMark  == <<9>> \o B("cmd spawn")
NameKeyMark   == B("\\name\\")
ServerinfoMark == B("fullserverinfo \"")
StatsMark     == B("{\"version\": ")
StatsDurationMark == B("\"duration\": ")

(* --- time zones: abbreviation, offset from UTC in minutes --- *)
ZoneList == <<
  <<"ACDT", 630>>, <<"ACST", 570>>, <<"ACT", 570>>, <<"ACWST", 525>>, <<"ADT", -180>>,
  <<"AEDT", 660>>, <<"AEST", 600>>, <<"AFT", 270>>, <<"AKDT", -480>>, <<"AKST", -540>>,
  <<"ALMT", 360>>, <<"AMST", -180>>, <<"AMT", 240>>, <<"ANAT", 720>>, <<"AQTT", 300>>,
  <<"ART", -180>>, <<"AST", 180>>, <<"AWST", 480>>, <<"AZOST", 0>>, <<"AZOT", -60>>,
  <<"AZT", 240>>, <<"BIOT", 360>>, <<"BIT", -720>>, <<"BNT", 480>>, <<"BOT", -240>>,
  <<"BRST", -120>>, <<"BRT", -180>>, <<"BST", 60>>, <<"BTT", 360>>, <<"CAT", 120>>,
  <<"CCT", 390>>, <<"CDT", -300>>, <<"CEST", 120>>, <<"CET", 60>>, <<"CHADT", 825>>,
  <<"CHAST", 765>>, <<"CHOST", 540>>, <<"CHOT", 480>>, <<"CHST", 600>>, <<"CHUT", 600>>,
  <<"CIST", -480>>, <<"CKT", -600>>, <<"CLST", -180>>, <<"CLT", -240>>, <<"COST", -240>>,
  <<"COT", -300>>, <<"CST", -360>>, <<"CVT", -60>>, <<"CWST", 525>>, <<"CXT", 420>>,
  <<"DAVT", 420>>, <<"DDUT", 600>>, <<"DFT", 60>>, <<"EASST", -300>>, <<"EAST", -360>>,
  <<"EAT", 180>>, <<"ECT", -300>>, <<"EDT", -240>>, <<"EEST", 180>>, <<"EET", 120>>,
  <<"EGST", 0>>, <<"EGT", -60>>, <<"EST", -300>>, <<"FET", 180>>, <<"FJT", 720>>,
  <<"FKST", -180>>, <<"FKT", -240>>, <<"FNT", -120>>, <<"GALT", -360>>, <<"GAMT", -540>>,
  <<"GET", 240>>, <<"GFT", -180>>, <<"GILT", 720>>, <<"GIT", -540>>, <<"GMT", 0>>,
  <<"GST", -120>>, <<"GYT", -240>>, <<"HAEC", 120>>, <<"HDT", -540>>, <<"HKT", 480>>,
  <<"HMT", 300>>, <<"HOVST", 480>>, <<"HOVT", 420>>, <<"HST", -600>>, <<"ICT", 420>>,
  <<"IDLW", -720>>, <<"IDT", 180>>, <<"IOT", 360>>, <<"IRDT", 270>>, <<"IRKT", 480>>,
  <<"IRST", 210>>, <<"IST", 60>>, <<"JST", 540>>, <<"KALT", 120>>, <<"KGT", 360>>,
  <<"KOST", 660>>, <<"KRAT", 420>>, <<"KST", 540>>, <<"LHST", 630>>, <<"LINT", 840>>,
  <<"MAGT", 720>>, <<"MART", -570>>, <<"MAWT", 300>>, <<"MDT", -360>>, <<"MEST", 120>>,
  <<"MET", 60>>, <<"MHT", 720>>, <<"MIST", 660>>, <<"MIT", -570>>, <<"MMT", 390>>,
  <<"MSK", 180>>, <<"MST", -420>>, <<"MUT", 240>>, <<"MVT", 300>>, <<"MYT", 480>>,
  <<"NCT", 660>>, <<"NDT", -150>>, <<"NFT", 660>>, <<"NOVT", 420>>, <<"NPT", 345>>,
  <<"NST", -210>>, <<"NT", -210>>, <<"NUT", -660>>, <<"NZDT", 780>>, <<"NZST", 720>>,
  <<"OMST", 360>>, <<"ORAT", 300>>, <<"PDT", -420>>, <<"PET", -300>>, <<"PETT", 720>>,
  <<"PGT", 600>>, <<"PHOT", 780>>, <<"PHST", 480>>, <<"PHT", 480>>, <<"PKT", 300>>,
  <<"PMDT", -120>>, <<"PMST", -180>>, <<"PONT", 660>>, <<"PST", -480>>, <<"PWT", 540>>,
  <<"PYST", -180>>, <<"PYT", -240>>, <<"RET", 240>>, <<"ROTT", -180>>, <<"SAKT", 660>>,
  <<"SAMT", 240>>, <<"SAST", 120>>, <<"SBT", 660>>, <<"SCT", 240>>, <<"SDT", -600>>,
  <<"SGT", 480>>, <<"SLST", 330>>, <<"SRET", 660>>, <<"SRT", -180>>, <<"SST", 480>>,
  <<"SYOT", 180>>, <<"TAHT", -600>>, <<"TFT", 300>>, <<"THA", 420>>, <<"TJT", 300>>,
  <<"TKT", 780>>, <<"TLT", 540>>, <<"TMT", 300>>, <<"TOT", 780>>, <<"TRT", 180>>,
  <<"TST", 480>>, <<"TVT", 720>>, <<"ULAST", 540>>, <<"ULAT", 480>>, <<"UTC", 0>>,
  <<"UYST", -120>>, <<"UYT", -180>>, <<"UZT", 300>>, <<"VET", -240>>, <<"VLAT", 600>>,
  <<"VOLT", 180>>, <<"VOST", 360>>, <<"VUT", 660>>, <<"WAKT", 720>>, <<"WAST", 120>>,
  <<"WAT", 60>>, <<"WEST", 60>>, <<"WET", 0>>, <<"WGST", -120>>, <<"WGT", -180>>,
  <<"WIB", 420>>, <<"WIT", 540>>, <<"WITA", 480>>, <<"WST", 480>>, <<"YAKT", 540>>,
  <<"YEKT", 300>>>>
Zones == [k \in 1..Len(ZoneList) |-> <<B(ZoneList[k][1]), ZoneList[k][2]>>]

(* --- serverinfo keys in the order in which the runner reports them --- *)
SettingKeys == <<
  <<B("*admin"), "s">>, <<B("deathmatch"), "i">>, <<B("epoch"), "i">>, <<B("fpd"), "i">>,
  <<B("fraglimit"), "i">>, <<B("*gamedir"), "s">>, <<B("hostname"), "s">>,
  <<B("ktxmode"), "s">>, <<B("ktxver"), "s">>, <<B("map"), "s">>, <<B("matchtag"), "s">>,
  <<B("maxclients"), "i">>, <<B("maxfps"), "i">>, <<B("maxspectators"), "i">>,
  <<B("mode"), "s">>, <<B("needpass"), "i">>, <<B("pm_ktjump"), "i">>, <<B("*progs"), "s">>,
  <<B("*qvm"), "s">>, <<B("status"), "s">>, <<B("serverdemo"), "s">>,
  <<B("sv_antilag"), "i">>, <<B("teamplay"), "i">>, <<B("timelimit"), "i">>,
  <<B("*version"), "s">>, <<B("*z_ext"), "i">> >>
(* --- userinfo keys, likewise --- *)
UserKeys == <<
  <<B("name"), "s">>, <<B("team"), "s">>, <<B("topcolor"), "i">>, <<B("bottomcolor"), "i">>,
  <<B("*spectator"), "i">>, <<B("*auth"), "s">>, <<B("*flag"), "s">>, <<B("*client"), "s">>,
  <<B("*bot"), "i">>, <<B("chat"), "i">> >>
=============================================================================
