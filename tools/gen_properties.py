"""Writes properties.jsonl (kept as a script so that the texts stay readable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe or [], "hook_needed": None}})

WIN = "mahjong/container/pattern/win.py"; REA = "mahjong/container/pattern/reasoning.py"
SET = "mahjong/container/set.py"; TIL = "mahjong/tile/definition.py"; UTL = "mahjong/container/utils.py"
DIS = "mahjong/container/distribution.py"; STA = "mahjong/record/state.py"; RDR = "mahjong/record/reader.py"
PLY = "mahjong/record/player.py"; EVT = "mahjong/record/utils/event.py"; MLD = "mahjong/record/utils/value/meld.py"
TTL = "mahjong/record/utils/value/tile.py"; GTY = "mahjong/record/utils/value/gametype.py"; BIT = "mahjong/record/utils/bit.py"
CAT = "mahjong/record/category.py"; CON = "mahjong/record/const.py"; KON = "mahjong/record/utils/constant.py"
CMD = "mahjong/record/universe/command.py"; EXE = "mahjong/record/universe/executor.py"; FMT = "mahjong/record/universe/format.py"
INT = "mahjong/record/universe/interpreter.py"; PRM = "mahjong/record/universe/property_manager.py"
TRA = "mahjong/record/universe/translator.py"; TEN = "mahjong/record/universe/tenhou/__init__.py"
DEF = "mahjong/record/universe/tenhou/event_definition.py"; XMA = "mahjong/record/universe/tenhou/xml_macher.py"
CHK = "mahjong/tenhou_record_check.py"; DEM = "mahjong/win_rate_demo.py"; CNV = "mahjong/universe_paifu_convert.py"
TPL = "mahjong/templates/record_checker_template.html"; UTF = "mahjong/record/util_functions.py"; RCK = "mahjong/record/checker.py"
BLD = "mahjong/record/utils/builder.py"; STG = "mahjong/record/stage.py"

p("C01", "Analysing a hand never changes the hand or any shared tile data",
  "Asking whether or how a hand wins, how many steps it is from ready, or which tiles help it leaves the caller's hand with exactly the tiles and counts it had before, and leaves every shared table (the list of all tiles, each tile's own pair, triplet and run) unchanged. This holds for every hand, for the normal and the seven-pairs hand type and for every waiting algorithm.",
  ["inputs", "histories"], "all hands, hand types, algorithms, and any order of calls",
  "Tests ask each question once on a fresh hand and compare only the answer; damage to the argument or to a pooled tile group shows only in a later call.",
  [WIN, REA, SET, TIL, DIS], [("copies taken before every destructive step of the searches", WIN + ", " + REA), ("order normalisation that keeps every count", SET)],
  ["WinPattern.match / win_selections / unique_win_selections", "Waiting.before_waiting_step / useful_tiles / waiting_and_useful_tiles / batch_waiting_and_useful_tiles"])

p("C02", "Hand-analysis answers do not depend on earlier questions",
  "An analyser (waiting calculator or win pattern) may be kept and asked about any sequence of hands: no answer depends on what was asked before, because no call reads anything a previous call left behind in the analyser, its class or its module before setting it again.",
  ["histories"], "all sequences of queries on one analyser or on several",
  "Tests build a new analyser for every query, so leftover state is never observable there.",
  [REA, WIN, TIL], [("search bound re-initialised at the start of every query", REA + " HeuristicPatternMatchWaiting")],
  ["HeuristicPatternMatchWaiting, PatternMatchWaiting, BruteForceWaiting, NormalTypeWin, UniquePairs"])

p("C03", "Tile-collection operations leave their operands alone",
  "Combining, subtracting, intersecting, joining, excluding, comparing, measuring, listing or printing tile collections never changes how many of each tile any operand holds. Sum, difference, intersection, union, copy and successful exclusion each return a new tile collection of the same kind, never one of the operands.",
  ["inputs", "histories"], "all operand contents and all operation sequences",
  "Tests check results of a few operations; they do not look at the operands afterwards or at the type and identity of results.",
  [SET], [("copy before in-place arithmetic", SET)], ["TileSet operators and methods"])

p("C04", "The four-copies option is honoured throughout the waiting calculators",
  "The option that limits a hand to four copies of each tile reaches every step of a waiting query: a calculator called with the option off never lets the four-copies limit influence its answer and still returns an answer that depends on the hand, and one called with it on applies the limit in each of the searches it runs. No step silently falls back to the default.",
  ["inputs", "configurations"], "all hands, calculators and both values of the option",
  "No test ever passes the option, so only its default is exercised.",
  [REA], [("option parameter forwarded to the searches", REA)], ["ignore_4counts of every Waiting method"])

p("C05", "Win patterns account exactly for the tiles they consume",
  "Whenever a win pattern offers to take a group for a tile, the pattern it continues with needs exactly as many tiles fewer as the group contains and exactly one group fewer, no group is larger than the announced largest group, every offered group contains the tile it was offered for, and a pattern is complete exactly when it needs zero groups and zero tiles. Seven pairs never offers the same tile twice.",
  ["inputs"], "all tiles and all pattern states reachable from the normal and seven-pairs patterns",
  "Tests only run whole hands through the default patterns; a bookkeeping slip in a state they do not reach only prunes some other hand's search.",
  [WIN, TIL], [("need_count / need_units / max_unit_length / has_win / next_states kept in step", WIN)], ["NormalTypeWin, UniquePairs"])

p("C06", "Tiles are immutable values whose equality, hash and order agree",
  "A tile's number, suit, pair, triplet and run never change after it is created and no operation hands out a way to change them through normal use of the library. Equal tiles have equal hashes, the order is consistent with equality, a red five equals, hashes and sorts like the ordinary five of its suit, and asking for the same tile twice gives the same object.",
  ["inputs", "histories"], "all tiles, ordinary and red, and all uses",
  "Tests compare a few pairs of tiles; they do not cover hash/equality agreement of red fives in pooled objects or later writes.",
  [TIL], [("pooled construction, key tuple used for equality, hash and order", TIL)], ["Tile, AkaTile"])

p("C07", "Converting tiles to numeric codes treats a red five as a five",
  "Every conversion between tiles and Tenhou tile numbers agrees in both directions on suit, number and the four copies of a tile, and every conversion of a tile to a numeric code (the range of its four copies, its Unicode character) gives a red five exactly the code of the ordinary five of its suit.",
  ["inputs"], "all 136 tile numbers, 34 tile kinds and 3 red fives",
  "Tests only check that a red five compares equal to a five; they never convert one to numbers.",
  [TTL, CHK, KON], [("shared index layout and red-five normalisation", TTL)], ["tile_from_tenhou, tile_to_tenhou_range, to_unicode_tile"])

p("C08", "Feeding an event to a record tracker never alters the tracker",
  "Advancing a hand, meld, discard, dora or unseen-tiles tracker by an event returns a tracker for the new situation and leaves the old tracker and the value it reported unchanged, so earlier situations can be kept, compared and continued independently. Two trackers created separately never share what they report.",
  ["histories"], "all trackers, events and event sequences",
  "The tests never use the trackers directly; a shared list or set would only surprise a caller that keeps an older tracker.",
  [STA], [("each transition builds a new container", STA)], ["PlayerHand, PlayerMeld, DiscardTiles, DoraIndicators, InvisibleTiles, GameStateCollection"])

p("C09", "Record trackers follow exactly the events that concern them",
  "A player's hand starts from that player's dealt tiles, gains the tile that player draws, loses the tiles that player discards or contributes to a meld, and ignores other players' events; melds and discards follow the named player only; dora indicators start from the deal and grow with each new indicator; the unseen tiles start from all tiles of the game type as tile numbers and lose every player's discards, melded tiles and indicators. All of them restart at each deal.",
  ["histories", "inputs"], "all players, event kinds and tile numbers",
  "No test checks a tracker's content after an event; the games in the test data reach only a few seats, melds and tile numbers.",
  [STA, PLY, KON, EVT], [("event predicates by seat and tag", PLY), ("set/list updates from the event's own fields", STA)], ["scan of each tracker"])

p("C10", "Tile number 0, seat 0 and other zero-like values are ordinary values",
  "Tile number 0, player seat 0, round 0, a zero score or count, False and an empty text are handled like any other value: no decision about whether a value is present is made by treating a number or a text taken from a record as true or false.",
  ["inputs"], "all tile numbers, seats, scores and flags in records and commands",
  "The recorded games in the tests rarely hit the zero case at a place where it matters, and nothing is asserted there.",
  [STA, EVT, CMD, EXE, DEF, CHK, RDR], [("explicit None tests", STA + ", " + CMD)], ["discard_value, draw_value, norm_empty, command fields"])

p("C11", "Each universal command states the right fact from the right record field",
  "For every record event, each command it produces takes its value from the record field that defines that fact (including unit: scores are hundreds in the record and points in the command), addresses the player that the event or field names, uses the update kind that fits (set, add, remove, reset, check) and carries the event's own position and event type. Per-player commands always take the value at their own player's position.",
  ["inputs", "histories"], "all event kinds and field contents of three- and four-player records",
  "Tests only assert that commands are produced and that one hand and one score re-occur; most properties, seats and event kinds are never compared with the record.",
  [DEF, TRA, XMA, BLD], [("event handlers", DEF), ("default event type and timestamp stamping", TRA + ", " + XMA)], ["to_commands, to_command_records"])

p("C12", "Saving and loading commands puts every field back where it came from",
  "Each field of a command is written to and read back from the same column with inverse conversions: event, scope, property and update kind by name, value and state by the text form of the command's own property, player and timestamp as they are. Nothing is swapped, dropped or defaulted, for every property, update kind and event type.",
  ["inputs"], "all commands of every property, update kind and event type",
  "The round-trip tests compare records with records, so a field lost or swapped in both directions, and properties absent from the test games, go unnoticed.",
  [CMD, PRM, FMT], [("to_record / from_record, to_raw_record / from_raw_record pairs", CMD)], ["GameCommand.to_record/from_record/to_raw_record/from_raw_record"])

p("C13", "Every command fits its property's declared type and can be executed",
  "Every view property has exactly one declared type known to the type table, with text conversion in both directions, and every command a record can produce carries a value of its property's declared type, uses an update kind the interpreter executes, and, when it resets, adds or removes, targets a property whose type defines that operation.",
  ["inputs", "programs"], "all properties, all commands of all event kinds",
  "Tests only exercise properties and update kinds that occur in the six sample games and compare text with text, which hides a wrong type.",
  [FMT, PRM, INT, DEF], [("type groups of each view", FMT), ("operation table", PRM)], ["View.type, prop_manager"])

p("C14", "Converting one record is independent of every other conversion",
  "Translating a record to universal commands starts from a clean state and changes nothing that another conversion reads: converting records one after another, the same record twice, or several in interleaved steps gives exactly the commands each would give alone.",
  ["histories", "schedules"], "all sequences and interleavings of conversions in one process",
  "Tests convert records one at a time, each to the end.",
  [TEN, TRA, XMA], [("fresh interpreter state per conversion", TEN)], ["to_commands, to_command_iter, to_command_records"])

p("C15", "Published game states and command states never change afterwards",
  "A state yielded by the executor, and the state attached to a command, is a snapshot: executing further commands builds new states and never modifies one already handed out, and a snapshot offers no mapping operation that changes it. The same holds for the lists stored inside the states.",
  ["histories"], "all command sequences and all snapshots kept by a caller",
  "Tests keep at most three snapshots of a toy dictionary; a list modified in place would corrupt earlier states only in longer histories.",
  [EXE, INT, PRM], [("copy-on-set nested dictionary", EXE + " TransferDict"), ("non-destructive update functions", PRM)], ["GameExecutor.execute, GameCommand.state, TransferDict"])

p("C16", "Strict mode is honoured and no event is dropped silently",
  "With strict translation an event that produces no command raises an error, and with strict execution a failed check raises an error; without it, each is reported by a warning. The strict choice made by the caller reaches the place where it is decided, and every event kind of the log format (deal, draws, discards, calls, riichi, dora, wins, draws of the game, player and game setup, disconnect) produces commands.",
  ["inputs", "configurations"], "all event kinds and both strictness settings through every public entry point",
  "Tests pass strict=True on six good games, where nothing has to be rejected.",
  [TRA, TEN, EXE, DEF], [("strict flag forwarding and final raise", TRA), ("strict_mode assertion", EXE)], ["to_commands(strict=), to_command_records(strict=), GameExecutor(strict_mode=)"])

p("C17", "The translator and the executor compute the same state for a command",
  "For every update kind, executing a command on a previous value gives the same new value whether it is computed while translating (the state attached to the command) or by the executor, each keeps a separate value per player and property, and setting, adding, removing, resetting and checking affect only the property and player the command names.",
  ["histories", "inputs"], "all update kinds, properties, players and previous values",
  "Tests run both but never compare their states.",
  [EXE, INT], [("shared update function", INT + " execute_new_value")], ["GameInterpreter.interpret, GameExecutor.execute"])

p("C18", "Calls are classified and decoded identically wherever a meld is read",
  "Every place that reads a call decides its kind (sequence, triplet, added quad, north tile, quad) by the same flag bits in the same order of precedence as the log format defines, and the kinds are exhaustive: any code gets exactly one kind everywhere. The contributed and claimed tiles, and the player claimed from, are decoded from the bit positions the format assigns to them.",
  ["inputs"], "all 16-bit meld codes",
  "Tests decode thirteen sequences only; no triplet, quad, added quad or north tile is compared with its meaning.",
  [MLD, EVT, BIT, STA], [("bit layout descriptions", MLD), ("classification chains", MLD + ", " + EVT)], ["meld_from, meld_type, TenhouEvent.to_paifu"])

p("C19", "Game-type flags are read from the bits the log format defines",
  "Player count, red fives, open tanyao, round length, level, speed, hidden discards and tips of a game type are each decided by exactly the bit the log format assigns to them, in the right sense, for every code; equality of game types ignores exactly the undefined bits.",
  ["inputs"], "all 16-bit game-type codes",
  "One code (169) is tested, by its display text.",
  [GTY, BIT], [("bit layout description", GTY)], ["GameType"])

p("C20", "Paifu rows attribute every event to the right player and tiles",
  "Each row exported for an event names the event's own kind, the player who acted (and for calls and wins the player it came from) and the tiles and scores found in that event's own fields, for every seat and call kind; every cell is text, and every event kind of play yields at least one row.",
  ["inputs"], "all event kinds, seats and call kinds in three- and four-player games",
  "Tests only count rows.",
  [EVT, RDR], [("to_paifu dispatch", EVT)], ["TenhouEvent.to_paifu, TenhouGame.to_paifu, TenhouRecord.to_paifu"])

p("C21", "Each discard is judged on exactly what the player knew before it",
  "In the efficiency report every discard of the chosen player is analysed once, in order, against the hand, melds and unseen tiles as they were just before that discard, with every earlier event of the game and none later taken into account, and the tile judged as the player's choice is the tile of that discard.",
  ["histories"], "all games, players and event sequences",
  "The report test needs the network and only checks that HTML comes out.",
  [CHK, STA], [("state trackers advanced after each judgement with the same events", CHK + " game_reasoning")], ["game_reason_list, render_template"])

p("C22", "Text from a record cannot inject markup and every picture it needs exists",
  "The HTML report is rendered with escaping active, nothing that comes from a record (player names, links, descriptions) bypasses it, every tile the report can show has a picture that is shipped with the package, and every field the report layout reads is one the analysis provides.",
  ["inputs", "configurations"], "all player names and record contents, both packaged and frozen installs",
  "The only report test needs the network and a benign record.",
  [CHK, TPL, RCK], [("autoescaping environment", CHK + " template_env")], ["template_env, render_template, record_checker_template.html"])

p("C23", "Files are written only as plain names in the current directory",
  "Whatever a player's name or a log link contains, the report and the converted table are saved under a file name without directory parts in the current directory, and no other code of the package writes files.",
  ["inputs"], "all player names and log links",
  "Tests never run the console programs.",
  [CHK, CNV], [("file name construction", CHK + " render_template")], ["tenhou-check, paifu-extract"])

p("C24", "Network access is limited to the log server and always bounded in time",
  "The only network request the package makes is the download of one log from the fixed log address with the log id taken from the given link, always with the caller's time limit; reading from files, converting, tracking and analysing never touch the network.",
  ["inputs", "configurations"], "all entry points and arguments",
  "Tests have no network and cannot show the absence of a request or of a limit on other paths.",
  [RDR, RCK, CHK, CNV, UTF], [("single download function", RDR + " fetch_record_content")], ["from_url, TenhouChecker.parse, console programs"])

p("C25", "Nothing in a record or link can be executed, and results are reproducible",
  "No text from a record, link or table is ever evaluated as code, unpickled or passed to a shell, and, apart from the win-rate simulation, no result depends on random numbers, the clock, the environment or object identities.",
  ["inputs"], "all inputs and all library functions",
  "Absence of a dangerous or nondeterministic call on every path cannot be sampled.",
  ["mahjong/**"], [("no such call reachable", "whole package")], ["all public functions"])

p("C26", "Reports and simulations never divide by zero",
  "A report can be produced for every discard and a simulation summary for every hand and number of experiments of at least one, including hands with no tile left to wait for and simulations without a single win: no quotient has a divisor that can be zero.",
  ["inputs"], "all hands, unseen-tile situations and simulation outcomes",
  "Tests run neither the report nor the simulation.",
  [CHK, DEM], [("divisors guarded or positive by construction", CHK + " discard_reasoning, " + DEM + " main")], ["tenhou-check, mahjong-win-rate"])

p("C27", "Simulated draws come without replacement from the unseen tiles",
  "The simulation draws only from tiles not in the player's hand, every drawn tile is removed from the wall before the next draw, the wall given by the caller is not changed, and each draw chooses among all tile kinds weighted by the copies that are left.",
  ["inputs", "histories"], "all hands, walls and draw counts",
  "No test draws from a wall.",
  [DIS, DEM], [("wall threaded through the draws", DIS)], ["TileDistribution.sample, StaticWall, mahjong-win-rate"])

p("C28", "Composite index codes use one layout in both directions",
  "For every composite code made of several sub-ranges, turning an index into parts and parts into an index consult the same sub-range and the same starting offset, so that sub-ranges of different shapes do not get mixed up.",
  ["inputs"], "all combinations of sub-ranges and all indexes",
  "Tests use sub-ranges whose shapes happen to make a mix-up invisible.",
  [CAT], [("offset table shared by both directions", CAT)], ["MixedCategory.category / index"])

p("C29", "Dora and tile-stock tables follow the rules of the game",
  "Each indicator's dora is the next tile of its suit, wind or dragon cycle, the red five counts together with the five and indicates like it, and a game's stock holds four of each tile, without the 2 to 8 of characters for three players, with one red five per remaining suit in place of an ordinary one when red fives are used.",
  ["inputs", "configurations"], "all indicators and all game types",
  "No test reads these tables.",
  [CON], [("constant tables", CON)], ["doras, initial_tiles"])

p("C30", "Every text rendering is well formed",
  "Printing any object of the package never fails for want of a value: every format template receives exactly the values it names, and each text conversion returns text.",
  ["inputs"], "all objects and all format templates",
  "Tests print only a few of them.",
  ["mahjong/**"], [("format templates and their arguments", "whole package")], ["str() and repr() of every class"])

p("C31", "Documented entry points and signatures exist as documented",
  "Every console command, and every class, function, argument and column that the documentation tells users to use, exists in the package and accepts that use.",
  ["programs"], "all documented uses",
  "Tests do not run the installed commands or the documentation's examples.",
  ["setup.py", "README.md", RCK, CMD], [("entry point table", "setup.py")], ["tenhou-check, mahjong-win-rate, paifu-extract, README examples"])

p("C32", "Record headers, results and rounds are read from their own fields",
  "Players, ranks, ratings, final scores and points, dealer, round and counter numbers, dora indicator and the end results shown for a game come from the record fields that define them, matched by seat, with placements ordered by final score; every event of a record belongs to the record and, after the first deal, to exactly the game whose deal precedes it.",
  ["inputs"], "all three- and four-player records",
  "Tests count games of two records.",
  [RDR, PLY], [("header and result parsing", RDR)], ["TenhouRecord, TenhouGame, TenhouPlayer"])

p("N01", "The number of steps to ready is the true minimum",
  "For every hand and hand type the reported number of steps is the smallest number of tile exchanges that makes the hand ready, and the useful tiles are exactly those that reduce it.",
  ["inputs"], "all hands", "Ten hands are tested out of billions.",
  [REA], [("pruned search", REA)], ["Waiting.before_waiting_step, useful_tiles"])
p("N02", "The three waiting algorithms agree",
  "Brute force, pattern and heuristic calculation give the same steps and useful tiles for every hand.",
  ["inputs"], "all hands", "A handful of common hands is tested.", [REA], [("three implementations of one interface", REA)], ["Waiting"])
p("N03", "Win decompositions are complete and correct",
  "A hand is reported as winning exactly when it can be split into the required groups, and every distinct split is listed once.",
  ["inputs"], "all hands", "Seven hands are tested.", [WIN], [("backtracking search", WIN)], ["WinPattern.win_selections"])
p("N04", "Hand notation survives printing and parsing",
  "Parsing the printed form of a tile collection gives the collection back.",
  ["inputs"], "all collections", "Only fixed notations are parsed in tests.", [UTL, SET], [("notation regular expression and printer", UTL)], ["tile_set_from_string, str(TileSet)"])
p("N05", "Stage grouping keeps every event once and in order",
  "Grouping a sequence by stages yields every element exactly once, in order, whether or not the groups are consumed.",
  ["inputs", "histories"], "all sequences and stages", "Four sequences are tested.", [STG], [("StageGroupby iterator", STG)], ["StageGroupby"])
p("N06", "Simulated win rates converge to the true rates",
  "The win rates printed by the simulation converge to the exact probabilities as the number of experiments grows.",
  ["inputs"], "all hands", "No test runs the simulation.", [DEM], [("Monte Carlo loop", DEM)], ["mahjong-win-rate"])
p("N07", "Command tables survive CSV exactly",
  "Writing commands to CSV and reading them back restores every value, whatever texts (such as NA or quoted names) occur.",
  ["inputs"], "all values", "Six sample games are round-tripped.", [CMD], [("pandas CSV reader", CMD)], ["GameCommand.read_clean_csv"])
p("N08", "Hand analysis finishes quickly for every hand",
  "Every waiting query on a hand of at most fourteen tiles finishes within seconds.",
  ["inputs"], "all hands", "Ten hands are timed implicitly.", [REA], [("pruning", REA)], ["HeuristicPatternMatchWaiting"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
