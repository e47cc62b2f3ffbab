prop('C01', 'Base64 text and bytes convert losslessly within their buffers',
 'Encoding any byte string yields exactly its standard padded base64 text, and decoding that text returns the original bytes. Decoding any text, valid or not, into a buffer of any size never writes outside the buffer, accepts exactly valid base64 that fits (line breaks ignored, padding ends the data) and reports the exact decoded length. The advertised encode and maximum decode sizes are always sufficient, and encoding into a shorter buffer is refused without writing.',
 ['inputs'], 'all byte strings, all texts, all buffer sizes', 'Unit tests encode and decode a few fixed strings; padding classes, invalid characters at each position and undersized buffers are not enumerated.',
 ['src/c/base64.c', D], [('encode', 'src/c/base64.c:iot_b64_encode'), ('decode', 'src/c/base64.c:iot_b64_decode'), ('sizes', 'src/c/base64.c:iot_b64_encodesize, iot_b64_maxdecodesize'), ('array from base64', D + ':iot_data_alloc_array_from_base64')], ['return values, output buffer and length'])
prop('C02', 'Numeric conversion is exact or refused',
 'Converting a numeric or boolean value to another numeric or boolean type succeeds exactly when the source value lies within the range of the target type (anything is true or false), and then yields that value, rounded to a floating point type and without its fraction for an integer type; otherwise it is refused. NaN is never an integer. This holds for single values, for value transformation and for element by element array transformation, which keeps exactly the convertible elements in order.',
 ['inputs'], 'all values of all 11 numeric types to all 11 numeric types', 'Tests sample a few boundary values of some type pairs; the limits of 64 bit integers against floating point, NaN and infinities are not covered.',
 [D], [('cast', D + ':iot_data_cast_val'), ('transform', D + ':iot_data_transform'), ('array transform', D + ':iot_data_array_transform')], ['result and output of cast, transform and array transform'])
prop('C03', 'Data comparison is a total order consistent with equality',
 'Comparison of any two data (NaN excepted) is antisymmetric and transitive, and reports equality exactly when types and contents are equal. Comparison by value of two numbers of any types agrees with their mathematical order, and value equality agrees with value comparison. Text compares in byte order.',
 ['inputs'], 'all pairs and triples of data of every type including nested containers', 'Unit tests compare selected pairs; order laws quantify over all pairs and triples and mixed numeric types.',
 [D], [('comparison', D + ':iot_data_cmp'), ('equality', D + ':iot_data_equal, iot_data_equal_value')], ['results of compare, compare by value, equal, equal by value'])
prop('C04', 'The hash depends only on the content',
 'Two data with equal content have equal hashes and compare equal whatever sequence of creating, adding, replacing, removing, resizing, popping, incrementing, copying and hash reading operations produced them, also when read by several threads at once.',
 ['histories', 'inputs', 'schedules'], 'all operation sequences on vectors, lists, maps, numbers, arrays and text', 'The hash is maintained incrementally and lazily; tests check a handful of fixed hash values, not that every mutation history leads to the same hash as fresh construction.',
 [D], [('hash maintenance', D + ':iot_data_hash, iot_data_map_hash'), ('lazy rehash', D + ':rehash flag set by each mutator')], ['hash and equality results'], [('hash', 'cached hash', 'src/c/data-impl.h'), ('rehash', 'cached hash out of date', 'src/c/data-impl.h')])
prop('C05', 'A map is a sorted dictionary under every history',
 'After any sequence of adding, adding only if unused, replacing, removing, merging and emptying, a map holds exactly the keys and latest values that a dictionary would, lookups find exactly the present keys, and size, first and last values agree. Iteration forwards and backwards visits every entry once in key order, and asking whether a next entry exists always agrees with advancing. Typed lookups return the stored value exactly when it has the requested type, else the default.',
 ['histories', 'inputs'], 'all operation sequences and insertion orders within the bounds', 'The red-black tree has many rotation and deletion cases that depend on the insertion and removal history; tests follow a few fixed histories.',
 [D], [('tree', D + ':iot_node_insert, iot_node_remove, iot_node_insert_balance, iot_node_remove_balance'), ('iterators', D + ':iot_data_map_iter_*'), ('typed lookup', D + ':iot_data_map_get_*')], ['map API results'], [('tree', 'red-black tree of nodes', D), ('size', 'number of keys', D)])
prop('C06', 'A list is a double ended sequence under every history',
 'After any sequence of pushes and pops at both ends, predicate search and removal, removal or replacement through an iterator and emptying, a list (heap or static) holds exactly the elements in the order a double ended queue would, and length and both iteration directions agree. Removing through an iterator continues iteration with the following element, and popped elements belong to the caller.',
 ['histories', 'inputs'], 'all operation sequences within the bounds', 'Head, middle and tail removal, single element lists and length transfer between head elements interact across operations; tests follow fixed sequences.',
 [D], [('list', D + ':iot_data_list_*'), ('iterator', D + ':iot_data_list_iter_*')], ['list API results'], [('length', 'carried by the head element', D)])
prop('C07', 'Vectors and arrays keep elements by index through every operation',
 'After any sequence of setting, clearing, resizing, compacting and replacing, each vector index holds exactly its last value, compaction keeps the order of the remaining elements, and iteration in both directions visits the indexes in order. The dimensions of a nested vector exist exactly when it is regular down to the depth common to all elements, and their product is the total. Conversion to an array or vector of a numeric type yields, in order, exactly the convertible elements.',
 ['histories', 'inputs'], 'all operation sequences and nestings within the bounds', 'Irregular nesting, holes, repeated resizing and unconvertible elements are combinations tests do not enumerate.',
 [D], [('vector', D + ':iot_data_vector_*'), ('dimensions', D + ':iot_data_vector_dimensions'), ('conversion', D + ':iot_data_vector_to_array, iot_data_vector_to_vector'), ('array iterator', D + ':iot_data_array_iter_*')], ['vector and array API results'])
prop('C08', 'Every datum is released exactly once and nothing leaks',
 'However references are shared between holders, containers, copies and metadata, and in whatever order or from whichever threads they are dropped, a datum is released exactly once, when its last reference goes, and never used afterwards; the reference count always equals the number of holders. Memory taken over is freed by the library, referenced memory never, and when everything is dropped no memory remains allocated.',
 ['histories', 'schedules', 'inputs'], 'all operation sequences, destruction orders and thread interleavings within the bounds', 'Leaks and double frees depend on the particular sharing and destruction order; tests free in one order.',
 [D], [('reference counts', D + ':iot_data_add_ref, iot_data_free'), ('ownership', D + ':iot_data_alloc_string, iot_data_alloc_array, iot_data_binary_take'), ('metadata', D + ':iot_data_set_metadata')], ['release callbacks, live allocations, reference counts'], [('refs', 'atomic reference count', 'src/c/data-impl.h')])
prop('C09', 'Copies equal their source and are independent; compression keeps values',
 'A deep copy of any datum equals it, has the same type code and metadata, shares no mutable part with it, and neither is affected by changes to the other. A shallow copy has its own structure but shares the elements. Compression makes duplicate contained values shared without changing the value of the container.',
 ['inputs', 'histories'], 'all data of every type within the bounds, followed by mutation of either side', 'Tests copy a few fixed structures and compare; independence under later mutation of every type and empty elements is not covered.',
 [D], [('copy', D + ':iot_data_copy'), ('shallow copy', D + ':iot_data_shallow_copy'), ('compression', D + ':iot_data_compress_with_cache')], ['equality, type code, metadata, element identity'])
prop('C10', 'Path operations build a changed copy and leave the original alone',
 'Reading at a path through nested maps and vectors returns exactly the datum there, or nothing when the path does not exist. Adding, removing or updating at a path returns data equal to the original with exactly that one change, sharing untouched parts, while the original and the path itself stay unchanged. The update function is called exactly once for an existing datum and not otherwise.',
 ['inputs', 'histories'], 'all paths of the example structure, symbolic values, heap and static paths', 'Tests use one path each and do not check the original, absent paths or the path list afterwards.',
 [D], [('path operations', D + ':iot_data_get_at, iot_data_add_at, iot_data_remove_at, iot_data_update_at')], ['returned data, original, path'])
prop('C11', 'Text and binary values hold exactly the bytes given',
 'A text, binary or typed array value holds exactly the bytes it was created from, whatever their length and whether they were copied, taken or referenced; conversion between text and binary keeps the bytes. Taking the buffer of binary data returns its exact bytes and size, leaving shared or referenced data intact. Creating a number from the decimal text of a value in range yields that value, and text that is not a number yields nothing.',
 ['inputs'], 'all lengths across the inline and block storage thresholds, all ownerships, all 8 and 16 bit values', 'Storage changes with length (inline buffer, block, heap); tests use a few lengths.',
 [D], [('string storage', D + ':iot_data_alloc_string'), ('arrays', D + ':iot_data_alloc_array, iot_data_binary_take'), ('parsing', D + ':iot_data_alloc_from_string')], ['stored bytes and sizes'])
prop('C17', 'Generated UUIDs are version 4, unique draws, and canonically formatted',
 'Every generated UUID has the version 4 and RFC 4122 variant bits and takes its other 122 bits from the next values of one randomly seeded stream, also when generated concurrently, and failed or short reads of the random source are retried. Formatting yields the canonical 36 character lower case form, and a string is recognised as a UUID exactly when it has that length with dashes and hexadecimal digits (either case) in their places.',
 ['inputs', 'schedules', 'fault_sequences'], 'all seeds, all 128 bit values, all single character changes, all schedules of three concurrent generations', 'Tests generate a few values; lost or duplicated draws under concurrency and seed read failures never occur in them.',
 ['src/c/uuid.c', 'src/c/util.c'], [('generation', 'src/c/uuid.c:iot_uuid_generate'), ('formatting', 'src/c/uuid.c:iot_uuid_unparse'), ('recognition', 'src/c/util.c:iot_util_string_is_uuid')], ['generated bytes, formatted text'], [('uuid_seed', 'generator state', 'src/c/uuid.c')])
prop('C18', 'Nanosecond timestamps strictly increase; waits last the full interval',
 'Successive nanosecond timestamps in one process are strictly increasing and unique across threads under any clock behaviour, including repeats and steps backwards, and never lie behind the clock read. The other units are the clock divided down. A wait returns only after the whole requested interval has passed, however often it is interrupted.',
 ['schedules', 'inputs', 'fault_sequences'], 'any clock readings, all interleavings of concurrent calls, any interval, interruptions', 'Tests cannot make the clock repeat or step back, nor interleave the atomic update.',
 ['src/c/time.c'], [('timestamps', 'src/c/time.c:iot_time_nsecs'), ('waits', 'src/c/time.c:iot_wait')], ['returned times, sleep requests'], [('lasttime', 'last returned time', 'src/c/time.c')])
prop('C19', 'The queue delivers every element once, in order, within its limit',
 'Elements leave a queue in the order they entered, each exactly once, whatever number of threads enqueue and dequeue, and elements of one producer are never reordered. The queue never holds more elements than its limit: enqueueing waits and trying is refused exactly while it is full, dequeueing waits and trying yields nothing exactly while it is empty. Raising or removing the limit and stopping the queue release every thread waiting; a stopped queue still delivers what it holds and then nothing. No wakeup is ever lost and freeing the queue releases its elements.',
 ['schedules', 'histories'], 'all interleavings of producers, consumers, limit changes and stop within the bounds, spurious wakeups included; all sequential histories', 'Lost wakeups and reordering need particular interleavings at the full and empty boundary.',
 ['src/c/queue.c'], [('enqueue', 'src/c/queue.c:iot_queue_enqueue, iot_queue_try_enqueue'), ('dequeue', 'src/c/queue.c:iot_queue_dequeue, iot_queue_try_dequeue'), ('limit and stop', 'src/c/queue.c:iot_queue_setmaxsize, iot_queue_stop')], ['elements returned, sizes, threads that return'])
prop('C20', 'A thread pool runs each accepted job exactly once, by priority, and waits for all',
 'A running pool runs every accepted job exactly once, in order of descending priority and, within a priority, of arrival, at the priority requested, with never more at once than it has threads. Adding waits while the job queue is at its limit, and trying is refused exactly then. A job may itself add work to its pool, try to, stop it or free it. Nothing runs before the pool is started or while it is stopped; jobs queued then run once it is started. Waiting returns, for every waiter, once no job is queued or running. Freeing at any moment, also from one of its jobs or with references held elsewhere, lets running jobs complete, starts no further ones, and releases everything.',
 ['schedules', 'histories'], 'all interleavings of adders, workers, waiters, stop, start and free within the bounds, all priorities', 'Job order, lost wakeups and freeing while jobs run depend on particular interleavings.',
 ['src/c/threadpool.c', 'src/c/component.c'], [('job queue', 'src/c/threadpool.c:iot_threadpool_add_work_locked, iot_threadpool_thread'), ('wait and free', 'src/c/threadpool.c:iot_threadpool_wait, iot_threadpool_free')], ['jobs run, their order and priority, calls that return'])
prop('C21', 'Schedules run when due, as often as asked, and never after removal',
 'While the scheduler runs, an added schedule runs at its start time and then after every period, never before it is due, the number of times asked (or until removed), earlier due schedules first; nothing runs while the scheduler is stopped and what is overdue runs at once when it starts, whenever schedules are added, removed, reset, stopped or started. Adding and removing succeed exactly when the schedule was not or was scheduled. A function run by the scheduler, also synchronously, and the run and abort callbacks may themselves add, remove, delete and create schedules and stop the scheduler. Runs of a schedule that is not concurrent never overlap, those of a concurrent one start on time regardless; runs dropped by a full pool are counted and reported by the abort callback, and the run callback precedes every run. A deleted schedule never runs again, and its argument is freed exactly once, after the last run using it. Freeing the scheduler at any moment, even when threads could not be created, is safe and releases everything.',
 ['schedules', 'histories', 'fault_sequences'], 'all operation sequences at all time steps of a virtual clock, all small delays, periods, repeat counts and durations, thread creation failures, interleavings of deletion with execution', 'Tests run against the real clock with tolerances and one history; stale timers, overlap and use after free need particular timing.',
 ['src/c/scheduler.c'], [('timing', 'src/c/scheduler.c:iot_scheduler_thread, iot_schedule_queue_add'), ('operations', 'src/c/scheduler.c:iot_schedule_add, iot_schedule_remove, iot_schedule_reset, iot_schedule_delete'), ('lifetime', 'src/c/scheduler.c:schedule_fn, iot_scheduler_free')], ['times and number of runs, callbacks, dropped count'], [('queue', 'schedules by start time', 'src/c/scheduler.c'), ('refs', 'holders of a schedule', 'src/c/scheduler.c')])
prop('C13', 'Any JSON text parses safely; valid JSON yields exactly its value',
 'Parsing any text whatever is memory safe, terminates, leaks nothing and yields a datum, which can be written and parsed again to an equal one; incomplete text yields null. A valid document yields exactly the value it denotes: members by key, elements in order, escapes and surrogate pairs decoded to UTF-8, integers exact as signed 64 bit values or, when larger, unsigned, other numbers as doubles. The tokeniser gives every token its place, size and parent, never uses more tokens than it is given, and continues where it was when given more. With ordering requested, members are written back in the order in which they were read. A string cache does not change the result.',
 ['inputs'], 'all texts up to the bounds, all valid documents of the generated shapes with symbolic characters and digits', 'Malformed text has endless variants; tests try a handful and do not check the decoded value of every escape or boundary number.',
 ['src/c/data-json.c', 'src/c/json.c'], [('tokens', 'src/c/json.c:iot_json_parse'), ('decoding', 'src/c/data-json.c:iot_data_value_from_json, iot_data_string_from_json_token')], ['parsed datum, text written from it'])
prop('C26', 'File writes are atomic, reads complete, listings exact, whatever fails',
 'Writing a file reports success exactly when the file then holds exactly the new content; otherwise the previous content remains. At every moment, so after a crash at any point, the file holds either its complete previous or its complete new content, and no temporary file remains after a call. Reading yields exactly the bytes and length of the file, or nothing if any step fails. A listing holds exactly the regular files of the directory that match. Streams, directories and expressions are released whichever step fails.',
 ['fault_sequences', 'crash_points', 'inputs'], 'all combinations of failing steps up to the bound, every point between two file system operations', 'Tests cannot make close, rename or a partial write fail, nor stop between two steps.',
 ['src/c/file.c'], [('atomic replacement', 'src/c/file.c:iot_file_write_binary'), ('read', 'src/c/file.c:iot_file_read_binary'), ('list', 'src/c/file.c:iot_file_list')], ['result, directory contents after each step, open handles'])
prop('C27', 'The configuration store returns what was last saved under each name',
 'After any sequence of saves, loads and deletes, loading a name in a place yields exactly the text last saved there, or nothing if there is none or it was deleted, and delete reports whether the entry existed. Listing yields the names of exactly the stored entries. When custom storage functions are set, each operation calls its function exactly once with the place, name and content and returns its result, and an operation without a function fails.',
 ['histories', 'inputs'], 'all operation sequences within the bounds over names and places', 'Tests store one entry and do not interleave names, places and custom functions.',
 ['src/c/store.c'], [('file store', 'src/c/store.c:iot_store_config_save, iot_store_config_load, iot_store_config_delete, iot_store_config_list'), ('custom functions', 'src/c/store.c:iot_store_config')], ['loaded text, results, calls of custom functions'])
prop('C22', 'A component changes state only along valid transitions and wakes every waiter',
 'A component moves between stopped, running and starting as asked unless it was deleted, and can be deleted unless it is running; every request reports exactly whether the state changed. However requests from several threads interleave, every thread waiting for a state (or any of several) returns once the component has that state, and none returns without it; while a component is locked its state does not change. Reconfiguration merges and saves the new configuration exactly when the component accepts it. The last reference to be dropped, and no other, is reported as last, so a component is freed exactly once. Reading a component describes its name, type, category, state and configuration.',
 ['schedules', 'histories'], 'all interleavings of the requesting and waiting threads within the bounds, all sequences of requests', 'Waiters missed by a transition and references dropped at the same time need particular interleavings.',
 ['src/c/component.c'], [('transitions', 'src/c/component.c:iot_component_set_starting, iot_component_set_running, iot_component_set_stopped, iot_component_set_deleted'), ('waits', 'src/c/component.c:iot_component_wait, iot_component_wait_and_lock'), ('references', 'src/c/component.c:iot_component_dec_ref')], ['states, results, threads that return'], [('state', 'component state', 'src/c/component.c')])
prop('C23', 'A container creates each configured component once, in dependency order, and frees it once',
 'Of the registered factories the first of a type is the one found. Initialising a container creates each configured component exactly once when its type is known, its configuration can be parsed and its factory accepts it, and creates the components its configuration refers to first; circular references end. Starting starts components in order of creation, reporting starting and running (or that it timed out) for each; stopping acts in reverse order. Finding, listing and reading report exactly the components and states present. A component is stopped and freed exactly once, when it is deleted or the container is freed. Factories are loaded from the named dynamic library when the configuration asks for it, and every library and configuration text is released. All this holds also when several threads find, read, list and delete at the same time, register factories, or use containers of their own.',
 ['histories', 'inputs', 'fault_sequences', 'schedules'], 'all dependency graphs and operation sequences within the bounds; missing, malformed and rejected configurations', 'Creation order depends on the reference graph; tests use one configuration and do not count creations, starts, stops and frees.',
 ['src/c/container.c'], [('creation', 'src/c/container.c:iot_container_init, iot_container_add_component, iot_container_find_component'), ('order', 'src/c/container.c:iot_container_start, iot_container_stop, iot_container_free'), ('factories', 'src/c/container.c:iot_component_factory_add, iot_component_factory_find')], ['calls of factory functions in order, results, callbacks'])
prop('C24', 'Environment references and typed settings resolve exactly or fail cleanly',
 'Substituting a configuration replaces every ${NAME} by the value of that environment variable, keeps every other character as it is, and yields nothing exactly when a name is empty, unset or too long. A typed setting is read exactly when it is present with a type whose value is representable; otherwise the variable is unchanged and exactly one message is logged, to the logger given or else the default logger.',
 ['inputs'], 'all configuration texts and environment values up to the bounds, all setting types and values', 'Tests use a few texts; adjacent, unterminated, overlong and empty references and values containing references are combinations they miss.',
 ['src/c/config.c'], [('substitution', 'src/c/config.c:iot_config_substitute_env'), ('settings', 'src/c/config.c:iot_config_*')], ['resulting text, variables, log messages'])
prop('C25', 'A log message reaches exactly the loggers that admit it, as one whole line',
 'A message logged through a logger reaches, exactly once each, that logger and the loggers chained after it whose level admits it, also when several threads log at the same time, and no other. Stopping a logger silences it and starting it restores its level. Each output, to console, file or UDP, is a single whole line with level, name and message, truncated to the output buffer and never beyond it. A logger created from a configuration has exactly the level, destination and next logger configured, or is refused. Streams, sockets and loggers are released exactly once.',
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all levels and chains, message lengths around the buffer size, destinations and failures within the bounds', 'Truncation, chaining and levels combine; tests log a few short messages to one logger and do not check what is written.',
 ['src/c/logger.c'], [('dispatch', 'src/c/logger.c:iot_logger_log_to_all'), ('output', 'src/c/logger.c:iot_log_console, iot_log_file, iot_log_udp'), ('levels', 'src/c/logger.c:iot_logger_set_level, iot_logger_start, iot_logger_stop')], ['lines written, sockets, streams, levels'])
prop('C28', 'A thread starts exactly once with what could be granted, and leaves nothing behind',
 'Creating a thread runs its function exactly once with its argument, when creation is reported successful, and not otherwise. Priority and affinity are applied exactly when they are valid and permitted; when a thread cannot be created with them it is created with defaults. A thread whose identity is not asked for is detached, so leaves nothing behind when it ends. Priorities are read back as set, and mutexes are created so that priority is inherited.',
 ['inputs', 'fault_sequences'], 'all priorities, processors, users and failing steps', 'Tests run as one user on one machine where creation never fails.',
 ['src/c/thread.c'], [('creation', 'src/c/thread.c:iot_thread_create'), ('priority', 'src/c/thread.c:iot_thread_set_priority, iot_thread_get_priority'), ('mutex', 'src/c/thread.c:iot_mutex_init')], ['threads created with their attributes, results'])
prop('C14', 'Writing data as JSON is valid, within its buffer, and denotes exactly the value',
 'Writing any datum as JSON yields one valid JSON text whatever the initial buffer size, never writing beyond the buffer. Text is written as one string that denotes exactly its characters, integers as their exact decimal value, floating point numbers as text that identifies the value, not a number, empty elements and pointers as null, binary data as its base64 string, and a key that is not text as the string of its own JSON. Parsing the text gives back the value: text, numbers, booleans, nulls, sequences in order and members by key.',
 ['inputs'], 'all data of every type within the bounds, all initial buffer sizes up to 7 bytes and the default', 'Tests compare the text of a few values written to ample buffers; escapes, growth at each boundary, empty elements and unusual keys are combinations they miss.',
 ['src/c/data-json.c', D], [('output', 'src/c/data-json.c:iot_data_dump_json, iot_data_dump_json_ptr, iot_data_to_json_with_buffer'), ('escapes and growth', D + ':iot_data_strcat_escape, iot_data_holder_realloc')], ['text written, datum parsed from it'])
prop('C15', 'CBOR output is one well formed item denoting exactly the value',
 'Writing any datum as CBOR yields binary data holding exactly one well formed RFC 8949 item that denotes the value, whatever the initial size of the buffer and with no write beyond it: integers exactly, floating point numbers bit for bit, text and binary data with their exact length and bytes, arrays, vectors and lists as their elements in order, maps as each key with its value, and empty elements and pointers as null.',
 ['inputs'], 'all data of every type within the bounds, all lengths around each encoding step, several initial buffer sizes', 'Tests compare the hash of the output for one value; lengths and magnitudes at which the encoding changes, growth of the buffer at each byte and empty elements are not covered.',
 ['src/c/data-cbor.c', D], [('items', 'src/c/data-cbor.c:iot_data_dump_cbor, iot_data_add_cbor_*'), ('buffer growth', 'src/c/data-cbor.c:iot_binary_holder_realloc')], ['bytes of the binary datum returned'])
prop('C16', 'XML and YAML text yields exactly the data it denotes, or nothing',
 'Converting any XML text never reads or writes out of bounds or leaks: a document yields a map of the name, attributes, children and content of the root element exactly as written (references resolved, attribute white space and line ends normalised), which equals the same data built by hand, and text that is not a complete document, or has more after it, yields nothing. Converting YAML yields the value of the first document exactly: maps and sequences with every element, plain integers with their exact value (as Int64, or UInt64 when larger), other numbers as Float64, the words true, false and null as such, everything else and all quoted scalars as text; whatever cannot be parsed or represented (an alias, a key that is not a scalar) yields nothing and an exception. All parser events and memory are released on every path.',
 ['inputs', 'faults'], 'all short byte strings in every part of the XML grammar, generated documents with symbolic characters and every truncation, all YAML event streams within the bounds with failure at any point', 'Tests convert one well formed document of each kind and one malformed one; references, truncation points, trailing text, aliases, integer limits and parser failures inside nested values are not covered.',
 ['src/c/data-xml.c', 'src/c/yxml.c', 'src/c/data-yaml.c'], [('XML elements', 'src/c/data-xml.c:iot_data_map_from_xml, iot_data_from_xml'), ('XML parser', 'src/c/yxml.c:yxml_parse, yxml_refend, yxml_selfclose, yxml_eof'), ('YAML values', 'src/c/data-yaml.c:iot_data_value_from_yaml, iot_data_vector_from_yaml, iot_data_map_from_yaml, iot_data_from_yaml')], ['data returned, exception, live allocations and events'])
prop('C29', 'Every datum gets memory of its own, and all of it is returned',
 'Memory for data comes in blocks of one size. No block is handed out twice while in use, whatever the order of requests and releases and whichever threads make them, each block is large enough for every datum it is used for and does not overlap another, and a new chunk is obtained exactly when no block is free. Data asked from the heap goes back to the heap, data from blocks goes back to the blocks, also when the policy of the thread has changed since. All chunks are returned to the system at exit.',
 ['histories', 'schedules'], 'all sequences and interleavings of requests and releases within the bounds, around the point at which a chunk runs out', 'Corruption from a block handed out twice needs a particular sequence or interleaving; most of it is invisible to tests that run in one thread and never exhaust a chunk at the critical moment.',
 [D], [('blocks', D + ':iot_data_alloc_block, iot_data_block_free'), ('heap policy', D + ':iot_data_alloc_heap, iot_data_block_alloc'), ('end', D + ':iot_data_fini')], ['addresses handed out, live allocations'])
prop('C30', 'Types, type codes, names, tags and iteration describe exactly the data',
 'Each type has one name, found again from the name in any case; any other text is no type. A datum reports exactly the type, element type and key type it was created with, matches exactly its own type code, and its accessors return exactly the value given. Two type codes are equal exactly when all that applies to their type is equal. Static data equals allocated data of the same value. Tags and metadata are independent of each other and of the value. Iterating a vector, list or map, in either direction and any mixture of steps, visits exactly its elements in order, and the first and last element of a map are those of the least and greatest key.',
 ['inputs', 'histories'], 'all types, values and type codes, all sequences of steps within the bounds', 'Tests walk containers once in one direction and query the type of a few data; turning round at an end and types that differ in one component are combinations they miss.',
 [D], [('types', D + ':iot_data_type, iot_data_typecode, iot_data_matches, iot_typecode_equal, iot_data_name_type'), ('tags and metadata', D + ':iot_data_set_tag, iot_data_set_metadata'), ('iteration', D + ':iot_data_iter_next, iot_data_iter_prev, iot_data_map_start, iot_data_map_end')], ['values returned'])
