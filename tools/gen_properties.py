import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every extraction function returns for every byte string",
 "For every byte string - a complete demo, a demo cut off at any byte, a demo with damaged bytes, or arbitrary bytes - every public extraction function returns a value or an error. None of them panics, aborts, overflows or fails to terminate, whatever the input.",
 ["inputs","fault_sequences"],"all byte strings; in particular every prefix of a demo and every single- and multi-byte corruption of it",
 "The tests parse seven intact demos (two of which are missing here) and a handful of short literals; a truncation point or a length field is one of ~10^6 positions times 2^32 values, none of which they visit.",
 ["src/qw/frame.rs","src/qw/block.rs","src/clientinfo.rs","src/serverinfo.rs","src/ktxstats.rs","src/matchdate.rs","src/duration.rs","src/ping.rs","src/flags.rs","src/team.rs"],
 [("frame header decoding and its bound check","src/qw/frame.rs Info::from_data_and_index"),("stats block reassembly","src/ktxstats.rs ktxstats_string"),("client scan window","src/clientinfo.rs clientinfo_strings"),("serverinfo window","src/serverinfo.rs serverinfo_string")],
 obs=["return (or unwinding) of every public function"])

p("C02","Results are a function of the bytes alone",
 "Calling any extraction function twice on the same bytes gives the same result: in the same process, in another process, in another thread, after any history of other calls. In particular the order of players and teams and the colour of a team never vary between runs, even when players or teams tie on the sort key or colours tie for the majority.",
 ["inputs","histories","schedules"],"all byte strings, all call histories, all thread interleavings and all hash seeds",
 "A result that depends on the iteration order of a randomly seeded hash map passes a test with high probability whenever the sampled demo has no tie; the tests have no tied demo and call every function once.",
 ["src/team.rs","src/players.rs","src/clients.rs","src/ping.rs","src/frags.rs"],
 [("team grouping, ordering and colour vote","src/team.rs teams_from_players, majority_color"),("player collection and ordering","src/players.rs players_from_parsing, src/player.rs sort")],
 obs=["return values of repeated calls"])

p("C03","A torn tail adds nothing and loses nothing before it",
 "Cutting a recording at an arbitrary byte yields exactly the prints, frags, flag events, pings and running time of the frames that are complete before the cut: a partly written last frame contributes nothing and never hides earlier frames. Letting a recording grow frame by frame only appends to the print list and never decreases the running time.",
 ["inputs","crash_points","histories"],"every demo and every byte at which recording may have stopped; every extension of a demo by further frames",
 "Tests only parse complete files; the cut position is a free parameter with as many values as the demo has bytes.",
 ["src/qw/frame.rs","src/prints.rs","src/frags.rs","src/flags.rs","src/ping.rs","src/duration.rs"],
 [("frame walk stops at the first incomplete frame","src/qw/frame.rs Info::from_data_and_index"),("per-extractor frame loops","src/prints.rs, src/frags.rs, src/flags.rs, src/ping.rs, src/duration.rs")],
 [("index","offset of the next frame","every frame loop")],
 obs=["prints, frags_per_player_name, flag_events_per_player_name, ping_per_player_number, demo_duration on a demo and on its prefixes"])

p("C04","Every leading print is reported once, in order, unaltered",
 "The list of prints consists of the non-empty prints in the run of print messages that opens each frame, in recording order, each with its level and its exact bytes. Only immediate repeats of an identical print are merged; nothing else is dropped, duplicated, reordered or invented, whatever the frame's target, size or position in the file. Frames for several clients that name no recipient carry hidden data, not messages, and never contribute.",
 ["inputs"],"all sequences of frames: every target and command, every body size, every print level and text, every interleaving with other messages",
 "The only test needs a demo file that is absent; it compares a count and three entries of a single recording.",
 ["src/prints.rs","src/qw/message/print.rs","src/qw/primitives.rs","src/qw/frame.rs","src/qw/prot.rs"],
 [("print loop per frame","src/prints.rs prints"),("print decoding","src/qw/message/print.rs read_print"),("frame decoding","src/qw/frame.rs")],
 obs=["prints(&data)"])

p("C05","Frags per name equal the ledger of obituaries",
 "For every demo, the frags reported for a name are the sum over all obituaries (medium-level prints that open a frame) of: +1 for each kill by that name, -1 for each death by the environment or by own weapon and each team kill by that name, -2 for each suicide. Every phrase of the obituary vocabulary is recognised with the right player as killer or victim; names without a counted obituary are absent, and no other message changes the count. Frames for several clients that name no recipient carry hidden data, not messages, and never contribute.",
 ["inputs","histories"],"all sequences of obituaries over the whole vocabulary (72 phrases), all admissible player names (any bytes, not containing an obituary phrase), interleaved with any other messages",
 "The accounting test needs a missing demo; the phrase test checks each phrase once with the fixed names FOO and BAR and never scores them.",
 ["src/frags.rs","src/qw/fragevent.rs","src/qw/fragprint.rs"],
 [("score ledger","src/frags.rs frags_per_player_name"),("obituary grammar","src/qw/fragevent.rs TryFrom<&str>"),("vocabulary","src/qw/fragprint.rs")],
 [("frags","name -> score","src/frags.rs")],
 obs=["frags_per_player_name(&data)"])

p("C06","Anonymous team kills are charged to the right team mate",
 "When an obituary names only the victim of a team kill, exactly one frag is taken from a player who is on the victim's team, is not the victim, and whose score changes in the first frag update following the obituary in its frame or opening one of the next two non-empty frames. If no such player exists nobody is charged. Frames for several clients that name no recipient carry hidden data and are passed over like empty frames.",
 ["inputs","histories"],"all rosters (slots, teams), all positions of frag updates relative to the obituary, all interleavings with other frames",
 "No test in the suite reaches this attribution with available data; it depends on the relative position of frames and on the roster.",
 ["src/frags.rs","src/clients.rs"],
 [("team killer search","src/frags.rs find_team_killer"),("roster","src/clients.rs clients")],
 obs=["frags_per_player_name(&data)"])

p("C07","Every flag event is credited once to the right player",
 "For every demo, each high-level print announcing a flag event (capture, pickup, return, assist, defence, carrier defence, carrier defence against an aggressor) adds exactly one to the matching counter of the player it names, whether the announcement is one print or a name print followed by its continuation, and however many announcements share a frame. Prints of other levels and other texts change no counter. Frames for several clients that name no recipient carry hidden data, not messages, and never contribute.",
 ["inputs","histories"],"all sequences of flag announcements over both flag colours and all kinds, grouped into frames in any way, with any number of occurrences per player, interleaved with other prints and messages",
 "The only test needs a missing demo.",
 ["src/flags.rs","src/qw/flagevent.rs","src/qw/flagprint.rs"],
 [("print pairing","src/flags.rs flag_events_per_player_name"),("announcement grammar","src/qw/flagevent.rs"),("vocabulary","src/qw/flagprint.rs")],
 obs=["flag_events_per_player_name(&data)"])

p("C08","Reported pings are the mean of the first eight samples",
 "The ping reported for a player number is the mean, rounded down, of all its ping updates in the first eight frames that open with ping updates; later updates do not matter. A demo without any such update is an error, and players without an update are absent. Frames for several clients that name no recipient carry hidden data, not messages, and never contribute.",
 ["inputs"],"all sequences of ping updates: any player numbers, any 16-bit pings, any number of players per frame and of frames, interleaved with other frames",
 "The test needs a missing demo (its first assertion is an error case); values near the 16-bit limit and sample counts around eight are never exercised.",
 ["src/ping.rs","src/qw/message/update_ping.rs"],
 [("sampling and averaging","src/ping.rs ping_per_player_number"),("message decoding","src/qw/message/update_ping.rs")],
 obs=["ping_per_player_number(&data)"])

p("C09","Countdown and demo durations are sums of frame times",
 "The countdown duration is the total of the frame time deltas up to and including the frame that carries the match date, and is zero in hoonymode and an error when there is no match date. The demo duration is the same total up to the last announcement that the match is over, failing that the last change of the server status to Standby, failing that the whole recording; both are exact to the millisecond.",
 ["inputs","histories"],"all sequences of frames with time deltas 0..255, all positions and repetitions of the markers, any length of recording",
 "The tests need missing demos and compare whole seconds of seven recordings.",
 ["src/duration.rs","src/qw/frame.rs"],
 [("time accumulation","src/duration.rs duration_until_offset"),("marker choice","src/duration.rs countdown_duration, demo_duration")],
 [("total_ms","time of the frames walked so far","src/duration.rs")],
 obs=["countdown_duration, demo_duration"])

p("C10","Match duration follows stats, else demo minus countdown",
 "The match duration is the duration stated in the embedded match statistics if they are present and usable, and otherwise (always in hoonymode) the demo duration minus the countdown duration, counting a missing countdown as zero. It is never negative and never fails because the markers come in an unusual order.",
 ["inputs","histories"],"all demos with or without (possibly unusable) statistics, in and out of hoonymode, markers in any order",
 "The test needs missing demos and sees only orderly recordings.",
 ["src/duration.rs","src/ktxstats.rs"],
 [("source selection","src/duration.rs match_duration"),("difference of durations","src/duration.rs match_duration_from_seeking"),("stats duration","src/duration.rs match_duration_from_ktxstats")],
 obs=["match_duration, match_duration_from_seeking, match_duration_from_ktxstats"])

p("C11","The client roster lists each client once with its own data",
 "The clients of a demo are the clients announced in its connection preamble, in order of announcement, each exactly once with the name, team, colours, spectator and bot status and authentication of its own userinfo. A client's number is the player slot under which the demo's ping and frag updates refer to it, also when slots are left empty.",
 ["inputs"],"all rosters: any slots, userinfo keys in any order, any name bytes, present or absent keys, any userinfo lengths within protocol limits, empty slots in between",
 "The string-level test needs a missing demo; the others look at one three-player demo with consecutive slots.",
 ["src/clientinfo.rs","src/clients.rs","src/client.rs"],
 [("userinfo scan","src/clientinfo.rs clientinfo_strings"),("field mapping","src/client.rs From<&Clientinfo>"),("numbering","src/clients.rs clients")],
 obs=["clientinfo, clientinfo_strings, clients"])

p("C12","Roster views partition the clients and list names once",
 "Every client is in exactly one of the player list and the spectator list, in roster order. Player and spectator name lists are those clients' names sorted case-insensitively by visible text; the team name list contains each distinct team of the players exactly once, sorted likewise; the bot and human predicates hold exactly when such a player exists (bots also when the statistics that are embedded and usable record one).",
 ["inputs"],"all rosters, including names and teams that differ only in case or character colour, empty teams, only spectators, only bots",
 "The tests sample demos whose names and teams do not collide.",
 ["src/clients.rs"],
 [("views","src/clients.rs player_clients, spectator_clients, player_names, spectator_names, team_names, has_bot_players, has_human_players")],
 obs=["player_clients, spectator_clients, player_names, spectator_names, team_names, has_bot_players, has_human_players"])

p("C13","Players: the statistics' players, else each roster player once",
 "When usable match statistics are embedded, the players are exactly the players of the statistics; otherwise each non-spectator client appears exactly once with its own name, team, colours, bot status and authentication, the frags of its name and the ping of its slot (zero if unknown; an error when the demo has no ping updates at all). The list is ordered by frags descending, then name, in both cases.",
 ["inputs","histories"],"all demos with and without statistics, all rosters and event histories, ties in frags and names, negative and extreme values",
 "Most tests need missing demos; ties, slot gaps and unusable statistics never occur in the others.",
 ["src/players.rs","src/player.rs"],
 [("source selection and assembly","src/players.rs players, players_from_parsing, players_from_ktxstats"),("ordering","src/player.rs sort"),("mapping from statistics","src/player.rs From<&ktxstats::v3::Player>")],
 obs=["players, players_from_parsing, players_from_ktxstats"])

p("C14","Teams partition the players and aggregate them exactly",
 "Every player is in exactly one team, the one bearing its team name, and keeps its relative order there. A team's frags are the sum of its players' frags, its ping the rounded mean of their pings, its colour the most frequent colour (the first player's for one or two players); teams are ordered by name ignoring case.",
 ["inputs"],"all player lists: any number of teams and players, any colours, ties for the majority colour, names differing only in case, any frags and pings",
 "The tests use two teams with an unambiguous colour.",
 ["src/team.rs","src/teams.rs"],
 [("grouping and ordering","src/team.rs teams_from_players"),("aggregation","src/team.rs From<&[Player]>"),("colour vote","src/team.rs majority_color")],
 obs=["teams, teams_from_ktxstats, teams_from_players"])

p("C15","Embedded statistics are reassembled exactly",
 "The match statistics text is the concatenation, in order, of the payloads of the statistics blocks of the last document in the demo, up to and including the final block, regardless of how the document was split behind its opening. If the demo breaks off inside the blocks or another frame interrupts them, the result is an error or a prefix of that document, never other bytes; the structured statistics and the server address are those of that text.",
 ["inputs","crash_points"],"all documents, all ways of splitting them into blocks, other messages before, after and between documents, cuts at any byte of the document",
 "The tests need a missing demo; block sizes and cut points are free parameters.",
 ["src/ktxstats.rs","src/qw/block.rs","src/server.rs"],
 [("block walk","src/ktxstats.rs ktxstats_string"),("block header","src/qw/block.rs"),("server mapping","src/server.rs")],
 obs=["ktxstats_string, ktxstats_v3, server"])

p("C16","Serverinfo is the announced settings string, wherever it fits",
 "When the full serverinfo announcement lies completely within the first 1280 bytes of the demo, the serverinfo text is exactly its quoted content with Quake characters mapped to plain text; otherwise the result is an error. The settings hold for every known key the value announced for it and nothing for absent keys; the filename is the announced demo name or an error.",
 ["inputs"],"all serverinfo strings, all positions around the window limit, demos shorter than the window, quotes and colour characters, missing keys",
 "Tests look at serverinfo strings of intact recordings at one position.",
 ["src/serverinfo.rs","src/bytesextra.rs","src/filename.rs"],
 [("window search","src/serverinfo.rs serverinfo_string, src/bytesextra.rs offsets_between"),("filename","src/filename.rs")],
 obs=["serverinfo_string, serverinfo, filename"])

p("C17","A demo is valid exactly when all four criteria hold",
 "A demo is reported valid if and only if it is at least 1024 bytes long, ends with the end-of-demo message, has a readable serverinfo announcement and announces at least one client. Each criterion alone failing makes it invalid.",
 ["inputs","crash_points"],"all demos, sizes around the limit, cuts anywhere, each subset of the criteria",
 "The test of the full predicate needs missing demos; combinations and size limits are not sampled.",
 ["src/validate.rs"],
 [("conjunction","src/validate.rs is_valid"),("end marker","src/validate.rs has_end_of_demo_print"),("clients","src/validate.rs has_clients")],
 obs=["is_valid, has_clients, has_end_of_demo_print"])

p("C18","Aborted and paused reflect what happened in the match",
 "A demo is reported aborted exactly when it contains the announcement that the match was stopped by majority vote. It is reported paused exactly when it does not end with the end-of-demo message and contains an announcement that the game or the server was paused.",
 ["inputs","histories"],"all histories of pause, abort and end events, markers anywhere in the file and with any surrounding bytes",
 "The tests need missing demos; near-miss texts and marker positions are not sampled.",
 ["src/aborted.rs","src/paused.rs","src/validate.rs"],
 [("abort marker","src/aborted.rs"),("pause markers","src/paused.rs")],
 obs=["is_aborted, is_paused"])

p("C19","The timestamp is the announced instant in UTC",
 "The timestamp is the epoch announced in the serverinfo when there is one, and otherwise the instant denoted by the printed match date, converted to UTC by its time zone abbreviation or numeric offset. A match date that is missing, malformed, of unknown zone or impossible is an error.",
 ["inputs"],"all epochs, all calendar dates and times, all listed zone abbreviations and all numeric offset notations, malformed texts",
 "Tests convert five zones and two demos; the table has about 190 zones and the calendar arithmetic crosses days, months and years.",
 ["src/timestamp.rs","src/matchdate.rs","src/timezone.rs"],
 [("source selection","src/timestamp.rs timestamp"),("match date parsing","src/matchdate.rs"),("zone table and offsets","src/timezone.rs utc_offset")],
 obs=["timestamp, timestamp_from_epoch, matchdate, matchdate_string"])

p("C20","All views of one demo agree with each other",
 "For every demo: the teams contain exactly the listed players and their frags add up to the players' frags; without usable statistics the listed players are exactly the roster's players; the statistics' players, server and duration come from one document; the client, player, spectator and name listings describe one roster; settings, file name and epoch come from one serverinfo string; the timestamp is the epoch or else the match date; a valid demo has clients and serverinfo and is not paused; and the match lasts the demo minus the countdown when it is measured from the recording.",
 ["inputs","histories"],"all demos, complete, cut or damaged, with or without statistics",
 "Each test looks at one function; no test relates two results, and the relations quantify over all demos.",
 ["src/teams.rs","src/players.rs","src/clients.rs","src/validate.rs","src/paused.rs","src/duration.rs","src/server.rs"],
 [("shared sources of the views","src/players.rs players, src/teams.rs teams, src/clients.rs"),("validity and pause","src/validate.rs, src/paused.rs")],
 obs=["the joint results of all public functions on one demo"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
