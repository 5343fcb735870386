#!/usr/bin/env python3
"""Single source for properties.jsonl (run after editing: python3 tools/gen_properties.py)."""
import json, pathlib
Q="wiggle_query_language/"
MAKE=Q+"clauses/make/make.py"; MPRE=Q+"clauses/make/transform/make_pre.py"
PMAKE=Q+"clauses/make/parse_make/parse_make_statement.py"
FPRE=Q+"clauses/find/transform/find_pre.py"; FIND=Q+"clauses/find/find.py"
SC=Q+"clauses/find/short_circuits/find_short_circuits.py"
PP=Q+"clauses/parsing_helpers/parse_properties.py"; CHK=Q+"clauses/parsing_helpers/parse_statement_checks.py"
EXT=Q+"clauses/parsing_helpers/extract_statements.py"
DB=Q+"graph/database/database.py"; IXH=Q+"graph/database/indexes/index_helpers.py"
IXR=Q+"graph/database/indexes/node_relationships_index.py"; WN=Q+"graph/state/wiggle_number.py"
QRY="wiggle_shell/core/query/query.py"; SEL="wiggle_shell/core/select_gdbms/select_gdbms.py"
SH="wiggle_shell/wiggleshell.py"; PQ="models/wql/parsing/parsed_query.py"
REL=Q+"clauses/transform_helpers/relationships.py"; REP=Q+"clauses/report/parse_report/parse_report_statement.py"
REGEX=Q+"clauses/regexes/patterns/clause_helpers.py"; PATT=Q+"clauses/regexes/patterns/patterns_helpers.py"
PROPRE=Q+"clauses/regexes/patterns/properties.py"
FILES_STATE=[{"name":"database file","meaning":"JSON object: node number -> stored node with its outgoing relationships","where":"<folder>/<db>/database_<db>.json"},
 {"name":"indexes file","meaning":"labels, relationship names, node -> relationship numbers","where":"<folder>/<db>/indexes_<db>.json"},
 {"name":"wiggle number file","meaning":"next free number","where":"<folder>/<db>/wiggle_number_<db>.txt"}]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","MAKE stores exactly the nodes that were written",
 "After an accepted query, the stored graph has gained exactly one node for every node written in its MAKE statements, each with the label written for it, and no other node. This holds for every position in a pattern (left, middle, right), for one or many comma separated patterns in a statement and for one or many MAKE statements in a query, and the nodes are numbered in the order they are written (pattern by pattern, left to right).",
 ["inputs","histories"],"every MAKE query built from patterns of one to three labelled nodes, in any number of patterns and statements, on any database reached by earlier queries",
 "No existing test executes a MAKE: tests parse statements and call the storage helpers separately, so nothing checks what is stored, for any pattern shape.",
 [MAKE,MPRE,PMAKE,DB],[("pattern to numbered nodes","process_parsed_make_list"),("node construction","make_nodes / make_node"),("database write","add_item_to_database")],
 ["database file after each query"],FILES_STATE)
p("C02","MAKE stores every relationship with the right ends, direction and name",
 "After an accepted query, the stored graph has gained exactly one relationship for every relationship written, running from the node at the arrow's tail to the node at the arrow's head (both nodes of that same pattern, adjacent to the arrow), carrying the written name (or no name), and kept with the node it leaves. No other relationship is added, and whitespace or extra dashes around an arrow never change its direction or ends.",
 ["inputs","histories"],"every combination of directions, names, lengths and spacing of the up to two relationships of every pattern of every MAKE query",
 "Tests check a direction helper on three bare strings and the regex groups; none checks the stored ends, and none has text between arrow and node when direction is decided.",
 [MAKE,MPRE,REL,"models/wql/data/relationship.py","models/wql/data/node.py"],[("direction decision","relationship_is_left_to_right"),("end points","process_parsed_make_list"),("self relation check","Relationship validator")],
 ["database file after each query"],FILES_STATE)
p("C03","Wiggle numbers are unique and never reused",
 "Within one database no two stored nodes or relationships (counted together) ever carry the same number, each node is filed under its own number, and a number once issued is never issued again, not by a later query, nor after rejected, failed or interrupted queries, nor after reopening the database in a new process. Every number issued is greater than all numbers issued before it.",
 ["histories","fault_sequences","inputs"],"every history of queries (accepted, rejected, failing at any write), reopenings and interleavings over several databases",
 "The only test writes a counter and reads it back; no test runs two MAKEs in a row.",
 [MAKE,MPRE,WN,DB],[("counter read and advance","get_current_wiggle_number / update_wiggle_number"),("number assignment","process_parsed_make_list"),("duplicate refusal","add_item_to_database")],
 ["database file","wiggle number file"],FILES_STATE)
p("C04","Stored data is never changed or removed by a query",
 "No query changes or removes anything already stored: every node and relationship present before a query is present afterwards, with the same number, label, name, ends, properties and timestamps. A query without MAKE (FIND, REPORT) leaves every file of the database with the same content.",
 ["histories","inputs"],"every database state reachable by queries and every next query, accepted or rejected",
 "Tests never compare a populated database before and after a query.",
 [DB,IXH,IXR,MAKE,FIND],[("merge on write","add_item_to_database"),("index union","add_items_set_to_index_by_name")],
 ["all three files before and after each query"],FILES_STATE)
p("C05","Indexes agree with the stored graph",
 "After every query that completes, accepted or rejected, on a database with no interrupted queries, the label index is exactly the set of labels of the stored nodes, the relationship name index is exactly the set of names of the stored named relationships, and the node-relationship index maps exactly the nodes that have outgoing relationships to exactly the numbers of those relationships. After an interrupted or failed query the indexes may contain more, but never less, than the stored graph.",
 ["histories","inputs","fault_sequences"],"every history of queries, including queries without relationships, with unnamed relationships, with repeated labels and with faults",
 "Index tests add literal items to one index file; none relates an index to stored nodes, and none adds an empty item set.",
 [MAKE,IXH,IXR,MPRE],[("collect labels/names","MakePre.node_labels / relationship_names"),("index writers","add_indexes, add_items_*")],
 ["indexes file and database file after each query"],FILES_STATE)
p("C06","A rejected query has no effect",
 "If a query is rejected with an error, the nodes, relationships, indexes and number counter of the database are exactly as they were before it, even if other statements of the same query, or earlier patterns of the same statement, are valid. The database stays usable: the next valid query succeeds.",
 ["inputs","histories"],"every query text that ends in an error (at parsing, validation, property conversion or serialisation), in every position of a multi statement query, on every reachable database",
 "Tests assert that parse helpers raise; none checks files after an error or runs a query afterwards.",
 [QRY,MAKE,PP,DB,"models/wql/data"],[("parse everything before writing","parse_query_string / make"),("all-or-nothing write","add_item_to_database")],
 ["all three files before and after a rejected query, and the next query"],FILES_STATE)
p("C07","Property values are stored with the written type and value",
 "Every property written on a node or relationship in an accepted query is stored on that same node or relationship under its written name, with the written value and type: whole number, decimal, boolean, null, quoted text, or list of these. Nothing inside quotes is altered (words such as true or null, digits, the other quote character, inner spaces), and neither the spacing around values, the order of properties nor the quote character used matters.",
 ["inputs"],"every property map over the documented value types, with any spacing, quoting and order, on any node or relationship position",
 "Tests convert one fixed map; none puts spaces before a comma or brace, keywords inside text in a list, or checks what a query finally stores.",
 [PP,PROPRE,"models/wql/parsing/properties_pre.py",MAKE],[("tokenise","ALL_PROPERTIES_KEY_VALUE_REGEX"),("convert by type","handle_extracted_property and handle_*_property")],
 ["properties in the database file"],FILES_STATE)
p("C08","Nothing written in an accepted query is silently dropped",
 "A query is either accepted, and then every node, relationship and property written in its MAKE statements is stored, or it is rejected with an error. Text the language cannot represent (unsupported characters in a value, a missing label or terminator, a fourth node in a chain, stray text, a misspelt or unknown statement) is never skipped over while the rest of the query takes effect.",
 ["inputs"],"every query text, valid or not, including arbitrary edits of valid queries",
 "Tests feed well formed statements or single defects that a check already knows; the parser matches by searching, so text that does not match is skipped, which no test looks at.",
 [PMAKE,EXT,PP,QRY,REGEX],[("statement extraction","extract_all_statements"),("pattern matching","build_parsed_make"),("property matching","parse_properties")],
 ["outcome of the query and database file"],FILES_STATE)
p("C09","FIND answers 'no results' only when the graph rules a match out",
 "If the stored graph contains a match for the FIND pattern (nodes with the written labels and properties joined by relationships of the written direction, name and properties), the query must not report that there are no results. If none of the pattern's node labels occurs in the graph, or the pattern names relationships and none of those names occurs in the graph, it must report no results (on a database with no interrupted or failed queries).",
 ["inputs","histories"],"every graph reachable by MAKE queries (also after interrupted ones) and every FIND pattern of one to three labelled nodes",
 "Tests call two set-intersection helpers; nothing runs a FIND against a populated database.",
 [FIND,SC,FPRE,IXH],[("index lookup","find_short_circuit"),("pattern labels and names","process_parsed_find")],
 ["'No results' output of the query and the database file"],FILES_STATE)
p("C10","Layout does not change meaning",
 "The effect of a query depends only on its statements, not on how they are laid out: statements on one line or several, in any letter case of the clause keywords, with any optional whitespace (spaces, tabs, newlines) between tokens, have the same effect. Each statement ends at its own semicolon, so a MAKE takes in only its own patterns and never those of a FIND or REPORT in the same query.",
 ["inputs"],"every valid query and every layout of it",
 "Multi statement tests always put each statement on its own line, and no test compares two layouts of one query.",
 [REGEX,EXT,PATT,PQ],[("statement boundaries","get_clause_all_regex"),("whitespace in patterns","get_nodes_rels_pattern_regex")],
 ["outcome and database file for each layout"],FILES_STATE)
p("C11","Only singly directed, upper case relationships are accepted",
 "A MAKE or FIND that contains a relationship with no direction, with both directions, or with a relationship name containing a lower case letter is rejected with an error, whichever statement, pattern or position of the query it is in. Relationships with exactly one direction and an upper case name, or no name, are accepted.",
 ["inputs"],"every relationship form in every position of every statement of a query",
 "Tests pass one statement at a time to the checker, so a bad relationship in a later statement is never tried.",
 [CHK,REL,Q+"clauses/regexes/patterns/relationships.py"],[("relationship check","check_relationships")],
 ["outcome of the query and database file"])
p("C12","Malformed statements are rejected",
 "A query is rejected with an error if a MAKE or FIND in it has an odd number of round, curly or square brackets, an illegal character (# % & * $), properties whose commas and colons do not pair up, a property without a value, a wrongly capitalised true/false/null, a missing semicolon, a misspelt (letters permuted) clause keyword, or more than three nodes in one chain. Well formed queries in the documented language are accepted.",
 ["inputs"],"every single and multiple edit of a valid query that produces one of these forms, in any statement of the query, and every valid query",
 "Tests cover one example per form, alone in a query, on the checker functions.",
 [CHK,PP,EXT,QRY],[("statement checks","validate_statement"),("spelling check","check_clause_spelling"),("value checks","handle_*_property")],
 ["outcome of the query and database file"])
p("C13","Handles and clause counts are enforced",
 "A pattern that uses the same handle twice is rejected; different patterns may reuse a handle. A query has at most one FIND and at most one REPORT, a REPORT needs a FIND, and every handle a REPORT mentions must have been introduced by the FIND (the REPORT need not mention all of them); every other combination of valid statements is accepted.",
 ["inputs"],"every assignment of handles to pattern positions and every combination of FIND handles and REPORT items (handle, handle.property, wn(handle), *)",
 "Tests try one mismatch and no query with both clauses run end to end; the handle check is by substring of the whole statement.",
 [PQ,REP,QRY,Q+"clauses/find/parse_find/parse_find_statement.py"],[("unique handles","ParsedPattern validator"),("report handles","check_find_report_handles"),("clause counts","parse_find/report_statement_from_query_string")],
 ["outcome of the query and database file"])
p("C14","A killed query loses nothing and leaves the database usable",
 "If the process is killed at any moment while a query runs, then after reopening, everything stored by earlier queries is still there unchanged, the interrupted query's nodes and relationships are either all stored or none are, and every file is readable. Later queries succeed, get numbers never used before, and FIND sees all stored data.",
 ["crash_points","histories"],"a kill before, during (partial write) or after every file operation of every query, on any reachable database, repeated any number of times",
 "Tests never interrupt anything.",
 [DB,IXH,IXR,WN,MAKE],[("file replacement","database / index / number writers"),("order of the writes","make")],
 ["the three files and later queries after the kill"],FILES_STATE)
p("C15","A failed write loses nothing and leaves the database usable",
 "If any file operation of a query fails (for example a full disk), the query ends with an error, everything stored earlier is unchanged, none or all of the query's nodes are stored, and once writing is possible again later queries succeed in the same process and get numbers never used before.",
 ["fault_sequences","histories"],"an error at every file operation, including partial writes, of every query on any reachable database",
 "Tests never make a file operation fail.",
 [DB,IXH,IXR,WN,MAKE],[("file replacement","database / index / number writers"),("order of the writes","make")],
 ["the three files and later queries after the error"],FILES_STATE)
p("C16","Database administration touches only the named database",
 "Creating, opening or deleting a database affects only the files of the database with exactly that name, whatever characters the name contains; a name that could denote anything but one folder directly inside the database folder is refused. Creating a name that is already taken is refused and changes nothing, deleting removes exactly that database, the listing shows exactly the existing databases in alphabetical order, and queries on one database never change another.",
 ["inputs","histories"],"every sequence of create, delete, list, open and query operations over any set of names (including wildcard characters, dots, spaces, slashes, names that are prefixes of each other)",
 "Tests create and delete plain names in one fixed folder and check a listing of three.",
 [SEL,"wiggle_shell/core/select_gdbms/select_database_file.py","wiggle_shell/core/select_gdbms/select_index_file.py","wiggle_shell/core/select_gdbms/select_wiggle_number_file.py"],
 [("creation","get_new_gdbms_file_paths"),("deletion","delete_gdbms"),("listing","list_existing_dbms")],
 ["the whole database folder and its surroundings before and after each operation"])
p("C17","A new database starts empty and is independent",
 "A newly created database holds no nodes and no index entries and numbers from 0, also when a database of the same name existed and was deleted before. Its three files are exactly those its creation returned, opening an existing database returns exactly its files, and a database with a missing file is refused on opening.",
 ["histories","inputs"],"every history of creating, using, deleting and re-creating databases, in one process or several",
 "Tests check the initial content of one file at a time and never re-create a used database.",
 [SEL,"wiggle_shell/core/select_gdbms/select_database_file.py","wiggle_shell/core/select_gdbms/select_index_file.py","wiggle_shell/core/select_gdbms/select_wiggle_number_file.py"],
 [("initial content","create_new_*"),("lookup","get_existing_*_path")],
 ["files of the new database, returned paths, first query"],FILES_STATE)
p("C18","The shell survives bad input and runs every valid query",
 "In an interactive session, no query text ends the session: errors are reported and the next line is processed, and only the line q ends it. Every line other than q and help is executed as a query, exactly once and in order, on the database chosen at the start and on no other; choosing by letter opens the database shown next to that letter, and a name already taken or an unknown letter is asked for again.",
 ["inputs","histories"],"every sequence of input lines at the selection prompts and the query prompt, on any set of up to 26 existing databases",
 "No test runs the shell.",
 [SH,SEL,QRY],[("session loop","start_wiggle_shell"),("selection","select_gdbms, get_existing_gdbms, create_new_dbms")],
 ["database files after each input line, prompts and output"])
p("C19","Creation times are the times of creation",
 "The creation time stored with a node or relationship lies between the start and the end of the query that made it, in whatever process and however long after start-up that query runs. It never changes afterwards, and nothing stored by MAKE carries an update time.",
 ["histories","schedules"],"every history of queries spread over time in one or more processes",
 "Tests never look at timestamps stored by a query.",
 ["models/wql/data/wiggle_metadata.py",MAKE],[("metadata creation","WiggleGraphMetalData")],
 ["created_at / updated_at in the database file against the clock before and after each query"],FILES_STATE)
p("C20","The graph depends only on the queries, not on the session",
 "The content of a database is determined by the sequence of accepted queries run on it: running them in one process or many, with other databases used in between, with rejected queries, FINDs or failed lookups in between, or as one query with several MAKE statements instead of several queries, gives the same nodes, relationships, properties and indexes up to numbering gaps. Nothing is kept in memory between queries that changes a later result.",
 ["histories","schedules"],"every split of a sequence of queries over processes, every interleaving with work on other databases, and every grouping of MAKE statements into queries",
 "Tests run each helper once on one fixed file.",
 [MAKE,MPRE,QRY,DB,IXH,IXR,WN],[("state read from files on every query","get_current_wiggle_number, load in add_*")],
 ["final files of databases built along different routes"],FILES_STATE)
p("C21","The search request built from FIND is the one written",
 "The search request made from a FIND statement has, at each written position (left, middle, right) and only there, the label, handle and properties written for that node, and each relationship, with its name, handle and properties, is attached to the node it leaves. The labels and relationship names collected for the index lookup are exactly those written.",
 ["inputs"],"every FIND pattern of one to three labelled nodes with any directions, names, handles, properties and layout",
 "The transform has no test of its own apart from the criteria merge helper.",
 [FPRE,Q+"clauses/find/parse_find/parse_find_statement.py","models/wql/clauses/find/find_pre.py"],[("transform","process_parsed_find")],
 ["FindPre returned for a parsed FIND"])
p("C22","The storage layer merges, refuses and wipes as documented",
 "Adding records to a database adds all of them or, if any number already exists, none, and never alters existing records; adding to an index gives the union with what was there for that index and leaves the other indexes alone, also when nothing is added. Loading returns exactly what is stored, a wipe empties exactly the database or index named and only when confirmed, and the number file returns the last number written.",
 ["histories","inputs"],"every sequence of add, load and wipe calls with any records, including empty ones, long ones followed by short ones, and repeated ones",
 "Each helper has one test with one or two literal additions to an empty file; empty additions, refusals with partly new records, and wiping one of several filled indexes are never tried.",
 [DB,IXH,IXR,Q+"graph/database/indexes/node_labels_index.py",Q+"graph/database/indexes/relationship_names_index.py",WN],[("add","add_item_to_database, add_items_*"),("load","load_*"),("wipe","wipe_*")],
 ["returned values and file contents after each call"],FILES_STATE)
p("C23","Queries are answered correctly while another session writes",
 "While a MAKE of one session is under way, at whatever point of its work, queries of other sessions are answered without waiting for it, as if it had not begun or had ended: every file of the database can be read, a FIND says 'no results' only if nothing stored when it began matches, it does not say that there are results for a label or name that is not in the graph once the MAKE has ended, FINDs and rejected queries change nothing and do not disturb the MAKE, and queries on other databases have their whole effect. The MAKE then has its whole effect, or none if its process is killed.",
 ["schedules","crash_points"],"every point of a MAKE or FIND at which its session can be held up, or killed, and every query that other sessions run meanwhile",
 "Tests run one call at a time in one process; what another process sees between two file operations is never looked at.",
 [QRY,MAKE,FIND,SC,DB,IXH,Q+"graph/state/write_file.py",WN],[("order of writes","make"),("replacing files as a whole","write_file"),("reads of a FIND","find_short_circuit")],
 ["output and end of every query, database files before and after each, while a session is stopped between two of its file operations"],FILES_STATE)
p("C24","MAKEs of several sessions at the same time lose nothing",
 "When several sessions run MAKEs on one database at the same time, whatever the points at which they are held up and the order in which they go on, each is accepted, and the stored graph, numbers and indexes are those of running them one after the other in some order: every node and relationship of each is stored once, no number is given twice, the indexes are exactly those of the graph, and the next number is ahead of all. If one of the processes is killed meanwhile its MAKE has its whole effect or none, and the others are not held up.",
 ["schedules","crash_points"],"every interleaving of the file operations of two or three MAKEs on one database, with any one of them killed",
 "Tests run one call at a time in one process, so no two writers ever meet.",
 [QRY,MAKE,WN,DB,IXH,Q+"graph/state/lock_database.py"],[("lock","lock_database"),("number read and written, files read and replaced","make")],
 ["database files after all sessions ended, end of every query"],FILES_STATE)
p("C25","A creation or deletion that is interrupted leaves nothing half-made in use",
 "If the process that creates or deletes a database is killed at any point of its work, or a file operation of it fails there, no other database and nothing outside that folder changes, and what is left is one of three: no database; a whole one, readable, new and empty if it was being created, exactly what it was before if it was being deleted, on which every well formed query succeeds with its whole effect; or a remainder that cannot be opened, on which queries are refused without effect. A remainder can be deleted, a creation under its name is refused without effect or makes a new, empty database, and after its deletion the name is free. An operation that failed never reports success for what it has not done.",
 ["crash_points","fault_sequences","histories"],"every file operation of every creation and deletion, with each kind of failure there, in folders with and without other databases, and everything tried afterwards",
 "Tests create a database in a folder that works and delete it again; none interrupts either, and none looks at what can be done with what is left.",
 [SEL,"wiggle_shell/core/select_gdbms/select_database_file.py","wiggle_shell/core/select_gdbms/select_index_file.py","wiggle_shell/core/select_gdbms/select_wiggle_number_file.py",Q+"graph/state/write_file.py"],[("creating","get_new_gdbms_file_paths, create_new_*"),("deleting","delete_gdbms"),("opening","get_existing_*_file_path")],
 ["end of every operation, all files below the folder of databases and beside it, after each operation"],FILES_STATE)
p("C26","Sessions that create, delete and use databases at once do not mix them up",
 "When several sessions create, delete, open, list and query databases at the same time, whatever the points at which they are held up and the order in which they go on, what each is answered, and the databases that exist in the end with all they hold, are those of running the operations one after the other in some order: of several creations under a free name exactly one is accepted, a refused one changes nothing, a deletion removes the whole database with what was stored until then or is refused, a MAKE is stored whole in the database that exists or is refused, no database is left half-made unless a process was killed, and other databases are not affected. A listing shows every database that was there all the time, none that was never there, and none twice.",
 ["schedules","crash_points"],"every interleaving of the file operations of two to four creations, deletions, openings, listings, MAKEs and FINDs on the same names, with any of them killed",
 "Tests run one call at a time in one process, so no two sessions ever use one name at once.",
 [SEL,Q+"graph/state/lock_database.py",MAKE,QRY],[("locks","lock_folder, lock_database"),("creating and deleting","get_new_gdbms_file_paths, delete_gdbms"),("listing","list_existing_dbms")],
 ["end of every operation, all files below the folder of databases and beside it, after all ended"],FILES_STATE)
p("C27","Criteria enter the search request at the handle they name",
 "When a search request is made from a FIND and criteria, the node or relationship with a handle that the criteria name must have, besides the properties written in the FIND, those the criteria demand of it (for a property of both, the value the criteria give), and must not have those they exclude; this holds for every position, with or without written properties, for any values. Every other node and relationship, and what is looked up in the indexes, is as without criteria, and neither the FIND nor the criteria are changed by it.",
 ["inputs"],"every FIND pattern of one to three labelled nodes with any handles and properties, and any criteria for these and other handles",
 "Tests call the merging helper twice, each time for a handle with an empty set of properties; the request with criteria is never made.",
 [FPRE,"models/wql/clauses/find/find_pre.py",PQ],[("merging","add_criteria_yes_no_props, process_parsed_find")],
 ["FindPre returned for a parsed FIND and criteria, the criteria afterwards"])
p("C28","A query is read into the parts written, the same way every time",
 "Before anything is run, a well formed query is read into one part for every MAKE, in the order written, one for its FIND and one for its REPORT, and none for a clause that is not there. Each part keeps the text of its own statement and no other. A MAKE's part has every pattern in the order written, the FIND's its first pattern and the handles of all its patterns; a pattern has its nodes and relationships in the positions written, each with its own handle, label or name, direction and properties, and its numbers of nodes and relationships and its set of handles are those written. Reading a query, well formed or not, again gives the same parts or is refused again, whatever was read in between.",
 ["inputs","histories"],"every query text, and any sequence of queries read in one process or several",
 "Tests read a few fixed queries and compare some fields; the handles of several patterns, the counts and repeated reading are hardly looked at.",
 [QRY,PQ],[("reading","parse_query_string"),("parts","ParsedQuery, ParsedMake, ParsedFind, ParsedReport, ParsedPattern")],
 ["ParsedQuery returned for a query text"])
out="".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P)
pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text(out)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
