"""Writes /verif/properties.jsonl (the source of the list; run by hand after an edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

CORE = 'pyulog/core.py'; DB = 'pyulog/db.py'; MIG = 'pyulog/migrate_db.py'

p('L01', 'An intact log is delivered exactly as recorded',
  'Loading a complete, well-formed log delivers exactly what the recorder wrote: every topic instance with all its samples in recorded order and bit-exact values, initial/default/changed parameters, information and multi-part information messages, text and tagged text messages, dropouts, the message formats, and the start and last timestamps; nothing is lost, invented, duplicated or attributed to another topic, and no corruption is reported. '
  'This holds however the publishers interleaved while recording and for every message layout the format allows (nested and array fields, trailing padding, any field order, several instances, sync markers, messages of up to 10000 bytes of a type this version does not know).',
  ['schedules', 'inputs'],
  'all recordings: every set of publishers, layouts and message kinds, and every order in which their messages reached the log',
  'The tests load five recorded sample logs and compare pyulog with itself (a second load or a rewrite); no test compares a load with what was recorded, and real samples exercise few layouts and one interleaving each.',
  [CORE], [('definition section reader', CORE + ' ULog._read_file_definitions'), ('data section reader', CORE + ' ULog._read_file_data'), ('format flattening and padding', CORE + ' ULog._MessageAddLogged')],
  [('data_list', 'per-topic-instance samples', CORE), ('changed_parameters, dropouts', 'stamped with the last data timestamp seen so far', CORE)],
  ['ULog(file) and its public properties'])

p('L02', 'A log cut off at any byte delivers every message completed before the cut',
  'A log that stops at an arbitrary byte (the recorder lost power) is rejected when not even the fixed 16-byte file header is complete; otherwise it loads without an error, is not reported as corrupt and delivers exactly the messages that were complete at the cut. '
  'The unfinished last message contributes nothing: no truncated strings, formats, values or samples.',
  ['crash_points', 'schedules', 'inputs'],
  'every recording and every cut position in it, in the definition section, in the data section and inside a message header or payload',
  'The sample logs end where they end; no test truncates a log.',
  [CORE], [('end-of-file handling', CORE + ' ULog._read_file_data, ULog._read_file_definitions'), ('header check', CORE + ' ULog._read_file_header')],
  observe=['ULog(file) on the truncated bytes'])

p('L03', 'Data appended after a crash is delivered together with what preceded it',
  'For a log that declares appended sections, loading delivers every complete message recorded before each section start and every message in each appended section, each exactly once and in order, even when the bytes just before a section start are an unfinished message or damaged data. '
  'Samples appended for a topic that was subscribed before the append belong to that topic, until the appended section gives its message id to another topic.',
  ['crash_points', 'histories', 'inputs'],
  'every recording history of up to three crash-and-append rounds, with the crash at any byte of the previous round',
  'Two sample logs have appended sections holding only information messages; the crash points and the appended message kinds vary in no test, and the expected-output tests for them cannot be imported here.',
  [CORE], [('appended offsets loop', CORE + ' ULog._load_file'), ('read_until', CORE + ' ULog._read_file_data')],
  observe=['ULog(file) and its public properties'])

p('L04', 'Damage inside a log does not spread',
  'When bytes in the data section of a log, behind its first message, are overwritten, loading it (with string errors ignored, the default) still finishes without an error within a bounded number of reads, and delivers unchanged everything recorded before the damage. '
  'If a zeroed region wiped out one or more message headers (the whole header or its type byte) the log is reported as corrupt, and everything recorded after the next intact sync marker is delivered unchanged for all topics whose subscription survived. '
  'A single sample, text message, dropout, parameter or scalar information message of the data section whose length does not fit its topic or type is left out and the log reported as corrupt; everything else is delivered as if that message had not been there. '
  'A message whose header became that of a message of a type this version does not know, with its length intact, is left out and nothing else changes; if the length is wrong and reaches over a sync marker (or beyond 10000 bytes, more than any such message has), the log is reported as corrupt and everything after the next sync marker is delivered.',
  ['fault_sequences', 'inputs'],
  'every recording and every overwritten region (zeroed blocks, flipped bits, foreign bytes) and every set of messages of a wrong length within its data section',
  'No test loads a damaged log; damage position and content are unbounded.',
  [CORE], [('resynchronisation', CORE + ' ULog._find_sync, ULog._check_packet_corruption'), ('corruption flag', CORE + ' ULog.file_corruption')],
  observe=['ULog(file), file_corruption, number of reads on the file object'])

p('L05', 'The source of a log cannot silently shorten it',
  'If reading the source of a log fails at any point, loading raises that error and never returns a partial log as if it were complete; loading again once the source works delivers the complete log. '
  'The result depends only on the bytes: it is the same from a path, a memory buffer and a raw, unbuffered file that returns fewer bytes than asked for, and the content hash of a log is the same for all of them and leaves an open file usable for loading.',
  ['fault_sequences', 'schedules', 'inputs'],
  'every read call that can fail and every way the source can split the bytes into reads',
  'Tests read healthy files from disk, always fully buffered.',
  [CORE, DB], [('file handle use', CORE + ' ULog._load_file'), ('content hash', DB + ' DatabaseULog.calc_sha256sum')],
  observe=['ULog(file object)', 'DatabaseULog.calc_sha256sum', 'DatabaseULog(log_file=file object)'])

p('L06', 'Loading only some topics never changes what those topics contain',
  'Loading a log restricted to a list of topics delivers, for every topic instance in the list, exactly the samples an unrestricted load of the same bytes delivers, and no other topic; parameter values, information and text messages are the same as well. '
  'This also holds for logs that were cut short or have appended sections, and unselected topics never make a sound log count as corrupt.',
  ['crash_points', 'inputs', 'configurations'],
  'every recording, cut position and topic selection',
  'No test loads with a filter and compares with the unfiltered load.',
  [CORE], [('filtered message ids', CORE + ' ULog._read_file_data, ULog._MessageData.initialize')],
  observe=['ULog(file, message_name_filter_list) against ULog(file)'])

p('L07', 'Logs loaded at the same time do not influence each other',
  'Loading several logs concurrently in one process gives each of them the result it has when loaded alone, with its own options: in particular whether a broken string raises an error or is tolerated depends only on the option given for that log.',
  ['schedules', 'configurations'],
  'every interleaving of the reads of several concurrent loads, every combination of their options and contents',
  'All tests load one log at a time in one thread.',
  [CORE], [('string decoding mode', CORE + ' ULog.parse_string, ULog.__init__')],
  [('string error mode', 'chosen per load, must not be shared', CORE)],
  ['ULog(file, disable_str_exceptions=...) in several threads'])

p('L08', 'A log that is still being recorded loads as it was at some moment',
  'When the recorder appends to a log while another process loads it, the load succeeds and delivers exactly the messages that were complete at one moment between the start and the end of the load, as if the log had been cut off there; nothing that was appended in the middle of the load is misread. '
  'The content hash of such a log is the hash of all bytes it had at one such moment, and an import into the database never pairs the hash of one moment with the content of another: it agrees or is refused.',
  ['schedules', 'inputs', 'histories'],
  'every recording, every size of the log when the load begins and every way the appended blocks fall between the reads of the loader',
  'All tests load files that do not change.',
  [CORE, DB], [('end of the definitions', CORE + ' ULog._read_file_definitions'), ('end of the data', CORE + ' ULog._read_file_data'), ('content hash', DB + ' DatabaseULog.__init__, calc_sha256sum')],
  observe=['ULog(path) while the file grows', 'DatabaseULog(log_file=path).sha256sum and content'])

p('L09', 'A loaded log answers every query from what was recorded, and no query changes it',
  'Whatever is asked of a loaded log (from a file, or in full or lazily out of a database), in which order, how often, and for a log from a file from how many threads, each answer agrees with the recording: '
  'a data set is found by topic name and instance (instance 0 if none is given) and asking for one that was not recorded or not selected raises KeyError, IndexError or ValueError; '
  'the value changes of a field are the first sample with a non-zero timestamp and every later one that differs from its predecessor, ignoring samples with timestamp zero; default parameters are given per set (an empty dictionary for a set without any); '
  'version tuple and version string are the documented decoding of the recorded version word (no string for development versions and absent words); the names of the log levels and the flags for appended data and default parameters are those recorded. '
  'Two loads of the same log are equal; loads of logs whose recorded content differs in any sample, parameter, information, text, dropout or format are not. '
  'No query, comparison, rewrite, refused request or failed rewrite changes the content of the log or any later answer; repeated rewrites give the same bytes.',
  ['histories', 'schedules', 'inputs', 'fault_sequences'],
  'every recording, every history of queries, comparisons, rewrites and failures on one loaded log and every interleaving of threads that share it',
  'Tests call a few accessors once on sample logs, and compare logs only with their own copies.',
  [CORE, DB], [('accessors', CORE + ' ULog.get_dataset, get_default_parameters, get_version_info, get_version_info_str, has_data_appended'), ('value changes', CORE + ' ULog.Data.list_value_changes'), ('comparison', CORE + ' ULog.__eq__ and the __eq__ of its parts')],
  observe=['the public methods and properties of ULog and DatabaseULog objects'])

p('L10', 'A header-only load delivers the definitions, whatever follows them',
  'Loading only the header of a log delivers exactly what its definition section says: formats, information and multi-part information messages, initial and default parameters, flags and start timestamp, and no samples, texts or parameter changes. '
  'The result does not depend on anything behind the definitions (the data section may be damaged, cut off, appended to or still growing), which is not read beyond its first message; for a log cut off within the definitions it is what was complete at the cut. '
  'A failing read raises the error, and a file opened for the load is closed again.',
  ['crash_points', 'fault_sequences', 'inputs', 'schedules'],
  'every recording, every cut, damage or growth of the file behind its definitions, every cut within them, every failing or short read',
  'No test loads a header only.',
  [CORE], [('end of the definitions', CORE + ' ULog._read_file_definitions'), ('header only', CORE + ' ULog._load_file')],
  observe=['ULog(file, parse_header_only=True)', 'positions of the raw reads'])

p('L11', 'What this version cannot read is refused, what it can read is not',
  'A file that does not begin with the ULog magic, or whose flags say that it needs a feature this version does not know (any incompatible flag except appended data), is refused with an error by every way of loading it (in full, restricted to topics, header only, for the database) and by the command line tools, which then create no output files and leave the ones that are there as they are. '
  'Unknown compatible flags and file versions do not matter: such a log is delivered like any other. A refused log does not affect how the next one is loaded.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every recording, every damage of its magic, every combination of flag bits and versions, every other kind of file',
  'No test loads a file that must be refused.',
  [CORE], [('file header', CORE + ' ULog._read_file_header'), ('flag bits', CORE + ' ULog._read_file_definitions')],
  observe=['ULog(file)', 'DatabaseULog(log_file=file)', 'exit status and files of ulog2csv and ulog_info'])

p('L12', 'Damage in the definitions costs only what it touches',
  'When bytes of the definition section of a log, behind its flags, are overwritten (bytes that then read as another flags message aside), loading it (with string errors ignored, the default) still finishes without an error within a bounded number of reads and delivers every definition recorded before the damage. '
  'Damage within the content of definitions (their length and type intact) changes nothing but what these definitions say: the other formats, information and parameters, and the samples of all topics that do not use a damaged format, are delivered as recorded. '
  'If whole definitions are wiped out (overwritten with zeros, a message shorter than 256 bytes following), the log is reported as corrupt and everything else is delivered as if they had not been there.',
  ['fault_sequences', 'inputs'],
  'every recording and every overwritten region of its definition section (zeroed blocks, flipped bits, foreign bytes)',
  'No test loads a damaged log; damage position and content are unbounded.',
  [CORE], [('definition loop', CORE + ' ULog._read_file_definitions'), ('corrupt message', CORE + ' ULog._check_packet_corruption')],
  observe=['ULog(file), file_corruption, number of reads on the file object'])

p('P01', 'The PX4-specific view agrees with the recording and does not disturb the log',
  'Vehicle type, estimator and names of the RC inputs mapped to a channel are those of the recorded initial parameters. Adding the attitude angles gives, for every sample of every instance of the attitude topics asked for, the Euler angles of the recorded unit quaternion (also when the vehicle points straight up or down), in the fields roll, pitch and yaw with the suffix of the topic, however often it is done; '
  'the recorded fields, all other topics and everything a rewrite of the log produces stay as they were.',
  ['histories', 'inputs'],
  'every recording with attitude topics and every history of PX4-specific queries, additions of angles, other queries and rewrites',
  'Tests only check that the fields exist.',
  ['pyulog/px4.py', CORE], [('angles', 'pyulog/px4.py PX4ULog.add_roll_pitch_yaw'), ('parameters', 'pyulog/px4.py PX4ULog.get_mav_type, get_estimator, get_configured_rc_input_names')],
  observe=['PX4ULog(log) and the log afterwards'])

p('W01', 'Rewriting a loaded log loses nothing',
  'For every loaded log with at least one sample, samples per topic instance and text messages in time order, and one type per information key, writing it out and loading the result gives the same content: samples of every topic instance, message formats, parameters, information, text messages, dropouts and timestamps; only sync markers, the append marking, the corruption report and a message id shared by several topics are not carried over. '
  'This also holds for logs recovered from a cut, appended or damaged recording, for filtered loads, and for a log taken out of the database in full; writing the rewritten log again gives the same content, and the same bytes once messages and ids are in order. '
  'The rewritten file is a well-formed log in its own right: any reader of the ULog format, not only pyulog, finds the same content in it.',
  ['histories', 'crash_points', 'inputs'],
  'every recording, every way it was loaded (cut, appended, damaged, filtered, from the database) and any number of rewrites',
  'Tests rewrite four sound sample logs once; field types, char data, info types and recovered logs are not varied.',
  [CORE, DB], [('writer', CORE + ' ULog.write_ulog'), ('refusal without data', DB + ' DatabaseULog.write_ulog')],
  observe=['write_ulog(file) followed by ULog(file)'])

p('W02', 'Rewriting a log reports failure or writes it completely',
  'If any write, flush or close fails while a log is being written out, the call raises; if it returns, the file holds the complete log, and a file object that was passed in is still open for the caller. '
  'A file left behind by a failed or killed rewrite loads as a log that contains only content of the original, without an error unless its file header is incomplete; the log in memory is unchanged and can be written again.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every failing write, flush or close (disk full, I/O error, short write) and every kill point during a rewrite',
  'Tests write to a healthy temporary directory only.',
  [CORE], [('writer', CORE + ' ULog.write_ulog')],
  observe=['write_ulog(path), write_ulog(file object)', 'ULog(left-over file)'])

p('D01', 'Saving a log to the database is atomic and durable',
  'If the process is killed or the machine loses power at any moment while a log is being saved, then after recovery the database is intact and holds that log either completely or not at all, and every other stored log unchanged. '
  'Once the save has returned, the log is there and equals the original after any later crash.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'every disk operation of a save as crash point, every subset of unsynced writes lost or torn, repeated crashes, other clients active',
  'Tests never crash; they save in a healthy process and read back.',
  [DB], [('single transaction', DB + ' DatabaseULog.save')],
  observe=['all database tables after recovery, DatabaseULog(primary_key=...)'])

p('D02', 'A failed database operation changes nothing and can be retried',
  'When saving, deleting, looking up or loading a stored log fails (disk error, disk full, lock contention, unstorable value), the call raises, the database keeps exactly its previous content, and the log object still tells the truth: it has a primary key only if its log is stored under that key. '
  'Once the fault is gone the same operation on the same object succeeds with the same result as without the fault, and no later operation on that object affects another log.',
  ['fault_sequences', 'histories', 'schedules'],
  'every disk operation and lock acquisition as failure point, histories that continue to use the same objects afterwards, other clients saving in between',
  'Tests provoke only the documented duplicate and unknown-key errors.',
  [DB], [('save/delete/load error paths', DB + ' DatabaseULog.save, delete, load')],
  [('primary key of an object', 'names the stored row or is empty', DB)],
  ['exceptions, primary_key, table contents, retry results'])

p('D03', 'Each log is stored at most once and lookups agree',
  'Under any interleaving of clients saving, deleting, looking up and checking logs, there is at most one stored log per content hash, a save of content that is already stored is refused without changing anything, telling the refused object the key the content is stored under, and every result is consistent with the operations having happened one at a time in some order. '
  'A primary key handed out for one log is never handed out for another.',
  ['schedules', 'histories'],
  'every interleaving (at file-operation granularity) of concurrent clients, including two clients that save the same file at once',
  'Tests use one client; the check-then-insert window is never open to another client.',
  [DB, 'pyulog/sql'], [('unique hash', 'pyulog/sql/pyulog.2.sql'), ('duplicate check', DB + ' DatabaseULog.save')],
  observe=['save, delete, exists_in_db, primary_key_from_sha256sum results; ULog rows'])

p('D04', 'Reading a stored log sees all of it or none of it',
  'Loading a stored log, or fetching one of its datasets later, while other clients save or delete logs either returns exactly the content that was saved or reports that the log is not there (KeyError); it never returns a log or a dataset with parts missing or mixed with another log.',
  ['schedules'],
  'every interleaving of a load or dataset fetch with deletes and saves by other clients',
  'Tests load while nobody else uses the database.',
  [DB], [('load', DB + ' DatabaseULog.load'), ('on-demand datasets', DB + ' DatabaseULog.get_dataset')],
  observe=['DatabaseULog(primary_key=...), get_dataset results and exceptions'])

p('D05', 'A stored log reads back as the original, however it is accessed',
  'A log saved to the database (from whatever source it was read, in full or restricted to some topics, with or without the additional JSON copy) and loaded again equals the original in all its content, whether loaded in full, lazily with datasets fetched in any order, loaded repeatedly on the same object, or after earlier attempts failed; fetched datasets are served from the cache without changing, and a dataset the log does not have is refused, as is rewriting a log of which only the metadata was loaded and asking for a stored and a new log at once. '
  'The JSON copy of each field lists the finite values of the field under their timestamps (the last sample where a timestamp repeats), with null for values JSON cannot express; it is stored only when asked for.',
  ['histories', 'fault_sequences', 'inputs'],
  'every recording and every sequence of loads, reloads and dataset fetches (lazy or not, cached or not), with failing attempts in between',
  'Tests store five sound logs and load each once or twice in a fixed order.',
  [DB], [('save and load', DB + ' DatabaseULog.save, load'), ('dataset cache', DB + ' DatabaseULog.get_dataset')],
  observe=['DatabaseULog content, get_dataset identity and values, ULogField.ValueJson'])

p('D06', 'Deleting removes exactly one log, completely or not at all',
  'Deleting a stored log removes the log and everything stored for it and nothing of any other log; if the process or machine crashes meanwhile, or the operation fails, the log is afterwards either completely there or completely gone. '
  'Once the delete has returned the log stays gone, the object no longer has a key, and the same log can be saved again, from its file or from that object if it was loaded completely.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every crash and failure point of a delete, every mix of other stored logs, databases at the current schema however they got there',
  'The test compares the database size before and after one delete in a healthy process.',
  [DB, 'pyulog/sql'], [('cascading delete', DB + ' DatabaseULog.delete, get_db_handle'), ('foreign keys', 'pyulog/sql/pyulog.2.sql')],
  observe=['rows of all tables per log, exists_in_db'])

p('D07', 'Database clients that all keep going only ever wait for each other',
  'Clients of one database that save and delete their own logs, and look up, load and fetch from any others, all succeed, each exactly as if it were alone: no operation fails or gives up because of the others (as long as no client pauses for long in the middle of an operation), and each ends within bounded time. '
  'Loaded logs, finished operations, refused operations (a log saved twice, a missing log) and killed clients do not block anybody.',
  ['schedules', 'histories', 'crash_points'],
  'every number of clients, every script of operations and every interleaving of their file operations; pauses below a second; kills of single clients',
  'Tests use one client at a time.',
  [DB], [('transactions', DB + ' DatabaseULog.save, delete, load, get_dataset'), ('connections', DB + ' DatabaseULog.get_db_handle')],
  observe=['results and simulated duration of each operation'])

p('M01', 'An interrupted migration can always be completed',
  'If a database migration is interrupted at any point (process kill, power loss, disk error, disk full), each migration step has afterwards either happened completely, including the recorded schema version, or not at all. '
  'Running the migration again (forced if the database has no version yet) completes it, and the result has the same schema as an uninterrupted migration.',
  ['crash_points', 'fault_sequences'],
  'every disk operation of a migration as crash or failure point, from every earlier schema version, repeatedly',
  'Tests interrupt a migration only by a syntax error in one script.',
  [MIG, 'pyulog/sql'], [('script transactions', MIG + ' _read_migration_file, migrate_db')],
  [('user_version', 'recorded schema version', MIG)],
  ['schema, user_version and data after the rerun'])

p('M02', 'Migration keeps every stored log',
  'Migrating a database from any earlier schema version to the current one keeps every log stored in it: afterwards each log loads under its primary key with the content it had (timestamps up to what the old schema could represent), is found by its content hash if the old schema recorded one, and can be deleted and saved again, and this holds as well when the migration was interrupted and resumed.',
  ['histories', 'crash_points', 'inputs'],
  'every earlier schema version and mix of stored logs, with and without interruptions',
  'Tests migrate only empty databases.',
  [MIG, 'pyulog/sql'], [('table rebuild', 'pyulog/sql/pyulog.2.sql'), ('timestamp conversion', 'pyulog/sql/pyulog.4.sql')],
  observe=['DatabaseULog(primary_key=...) after migrate_db'])

p('M03', 'Concurrent migrations and clients never damage the database',
  'When several migrations run at the same time, or clients use the database during a migration, the recorded schema version never decreases and never differs from the actual schema; after all of them finished, the database is at the newest version one of them completed, a further migration succeeds, and stored logs are unchanged. '
  'A client is refused while the database is at an older version than it needs, and works once it has been migrated.',
  ['schedules', 'histories'],
  'every interleaving of several migrations and clients on one database, from every starting version',
  'Tests run one migration at a time.',
  [MIG, DB], [('version check', MIG + ' _read_db_schema_version; ' + DB + ' DatabaseULog.__init__')],
  observe=['user_version over time, schema, client results'])

p('M04', 'A refused or dry-run migration leaves the database untouched',
  'A dry run changes nothing in an existing database; a database not created by the migration tool is refused unless forced; a migration script that is missing, or does not begin with BEGIN; and end with COMMIT;, is refused before any of it is executed; in all these cases content and recorded version stay as they were after the last completed step, even if the database was left behind by a crash.',
  ['histories', 'crash_points', 'configurations'],
  'every starting state (including leftovers of crashed writers) and every combination of dry-run, force and script problems',
  'Tests check single examples on empty databases.',
  [MIG], [('refusals', MIG + ' _read_db_schema_version, _read_migration_file'), ('dry run', MIG + ' migrate_db')],
  observe=['table contents and user_version before and after'])

p('X01', 'A CSV conversion is complete and exact, or it fails',
  'When a conversion of a log to CSV files returns successfully, there is one file per topic instance holding the header, one row per sample in the requested time window and one column per field (timestamp first, padding left out, a character array as one column with its string, quoted where it has to be), exactly as recorded; a window that begins or ends behind the last sample of a topic is no reason to fail. '
  'If writing any of them fails at any point, the conversion reports an error instead of success.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every failing open, write, flush or close of every output file, for every recording (complete or cut) and time window',
  'Its test converts one log, checks nothing in the output, and cannot be imported in this copy.',
  ['pyulog/ulog2csv.py'], [('file writing loop', 'pyulog/ulog2csv.py convert_ulog2csv')],
  observe=['output files and exceptions of convert_ulog2csv / main'])

p('X02', 'A parameter export is complete and exact, or it fails',
  'When the parameter export returns successfully, its output (file or standard output) lists every parameter exactly once in name order with its initial value and, depending on the options, its changes in order and their timestamps, or the requested defaults (refused if the log has none), in the chosen format. '
  'If writing the output fails at any point, including when the file is finally flushed and closed, the tool reports an error instead of success.',
  ['fault_sequences', 'inputs', 'configurations'],
  'every failing open, write, flush or close, every recording, format and option combination',
  'Its test only checks that one log runs without error, and cannot be imported in this copy.',
  ['pyulog/params.py'], [('output writing', 'pyulog/params.py main')],
  observe=['output file, stdout, exit status'])

p('X03', 'A GPS dump extraction is complete and exact, or it fails',
  'When the extraction of the raw GPS communication returns successfully, the two output files are exactly the bytes exchanged with the requested receiver in recorded order, separated by direction, for the samples that reached the log; a log without such samples produces no files, and a topic without the fields of a dump or an output directory that does not exist is refused. '
  'If writing either file fails at any point, the tool reports an error instead of success.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every failing open, write, flush or close, every recording (complete or cut) and receiver instance',
  'Its only test is skipped: no sample log has GPS data.',
  ['pyulog/extract_gps_dump.py'], [('extraction loop', 'pyulog/extract_gps_dump.py main')],
  observe=['the two output files, exit status'])

p('X04', 'A KML track is complete and exact, or the conversion fails',
  'When a conversion to KML returns successfully, the file holds, for each position topic asked for, every recorded position with a valid fix that is more than the minimum interval after the previously kept one, in order, scaled to degrees and metres, split into one line per flight mode (whatever mode it is) rendered as requested, and every camera trigger position. '
  'If writing the file fails at any point, the conversion reports an error instead of success.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every failing open, write, flush or close, every recording (complete or cut) of position and flight mode streams',
  'There is no test for this converter.',
  ['pyulog/ulog2kml.py'], [('track building', 'pyulog/ulog2kml.py _kml_add_position_data')],
  observe=['the KML file, exceptions'])

p('X05', 'The summary of a log adds up, or it fails',
  'When printing the summary of a log returns successfully, the output states whether the log was found to be damaged, its start time and duration, the release version if one was recorded, the number, total, maximum and mean of its dropouts, every information message (performance counters only if asked for) and, per topic instance, the number of samples and bytes, all in agreement with the loaded content, also for logs that were cut short; a single multi-part message that is asked for is printed completely, whatever the type of its parts. '
  'If the output cannot be written completely, the tool reports an error instead of success.',
  ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
  'every failing or partial write of the output, every recording (complete or cut) and option',
  'The expected-output test covers three logs and cannot be imported in this copy.',
  ['pyulog/info.py'], [('summary', 'pyulog/info.py show_info'), ('multi-part message', 'pyulog/info.py main')],
  observe=['standard output, exit status'])

p('X06', 'Extracting the samples of a topic is complete and exact, or it fails',
  'Extracting a topic from a log returns one record per sample of its first instance within the requested time window, in recorded order, each with every field (timestamp first) as recorded; a window that begins or ends behind the last sample is no reason to fail, and a topic that is not in the log is refused. '
  'If the log cannot be read completely, the extraction raises instead of returning some of the records.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every failing read, every recording (complete or cut), topic and time window',
  'Its tests extract one topic of one log, without a fault, and compare a few values.',
  ['pyulog/extract_message.py'], [('record loop', 'pyulog/extract_message.py extract_message')],
  observe=['the list returned by extract_message, exceptions'])

p('X07', 'A ROS 2 bag holds every convertible sample, or the conversion fails',
  'When the conversion of a log to a ROS 2 bag returns successfully, the closed bag holds, for every topic instance whose message type is in the message package, has no nested parts and has all recorded fields, one message per sample in recorded order with every recorded value and the timestamp in nanoseconds, registered under its own topic name and type; every topic left out is named in a warning, and the printed totals agree with the bag. '
  'If reading the log or writing the bag fails at any point, the tool reports an error instead of success.',
  ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
  'every failing open, read, write or close, every recording (complete or cut), message package and rosbag2 version from 0.15 on',
  'There is no test for this converter; ROS 2 is not installed.',
  ['pyulog/ulog2ros2bag.py'], [('conversion', 'pyulog/ulog2ros2bag.py convert_ulog2ros2bag'), ('message type of a topic', 'pyulog/ulog2ros2bag.py calc_msgtype')],
  observe=['calls of the bag writer, standard output, exit status'])

p('E01', 'Event messages survive network and metadata failures',
  'Listing the messages of a log never fails or hangs because event definitions cannot be fetched or are damaged: all untagged text messages are still listed in time order (in PX4 logs except those marked, by a trailing tab, as the duplicate of an event), together with the events, which without definitions may be missing or shown as unknown. '
  'A failure does not outlive its cause: once definitions can be fetched again, the same reader object decodes events exactly as a fresh one, it does not fetch them again once it has them, and definitions contained in a log are used without any request and for that log only; where the caller provides the definitions nothing is fetched from the network. Text that is not valid UTF-8 is refused unless the option to ignore that is given.',
  ['fault_sequences', 'histories', 'inputs'],
  'every sequence of network failures (refused, timed out, truncated, damaged or wrong content), logs with and without embedded definitions, on one reader object',
  'Its only test uses one log with embedded definitions, never the network, and cannot be imported in this copy.',
  ['pyulog/px4_events.py', 'pyulog/messages.py'], [('definition lookup', 'pyulog/px4_events.py PX4Events._get_event_parser'), ('merge', 'pyulog/messages.py main')],
  [('default parser', 'set only from completely loaded definitions', 'pyulog/px4_events.py')],
  ['get_logged_events results over a sequence of logs', 'ulog_messages output'],
  )

# properties this family of technique does not address (see MANIFEST not_applicable)
for x in P:
    if x['id'] in ('X01', 'X02', 'X03', 'X04', 'X05', 'X06', 'X07'):
        x['statement'] += (' Without a fault it fails only where it must: a log whose text is not valid UTF-8 is refused unless the option to ignore '
                           'that is given, and with the option it is processed like any other.')

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
