prop("C01", "Decompression never touches memory outside its input and its row",
     "Whatever compressed bytes a row holds and whatever row length the file declares, decompressing the row reads only the bytes of that compressed row and of the part of the output already inside the row buffer, and writes only inside the buffer of one row. Anything that would need more raises an exception.",
     ["inputs", "configurations"], "every compressed row (any bytes, any length), every declared row length, both compressions, both endiannesses and both widths; any sequence of rows through one decompressor",
     "The tests decompress a few hundred hand-written commands and the rows of sample files; an out-of-range copy needs a length or a back-reference no sample holds, and often reads mapped memory without failing.",
     ["src/decompressors.hpp", "src/buffer.hpp"],
     [("check before pop", "src/decompressors.hpp SRC_VALUES::pop"), ("check before store", "src/decompressors.hpp DST_VALUES::assert_check"), ("back-reference bound", "src/decompressors.hpp RDC::store_pattern")],
     "the accesses of the decompressors in the IR",
     technique=ABS, note="Every access of the four instances of each decompressor, inlined completely, is discharged by inferred loop invariants; sound for the modelled library calls, no bound on the input.")
prop("C02", "A decompressed row is complete, in order, and has the declared length",
     "When decompression of a row returns, it returns a block of exactly the declared row length of which every byte has been written for this row: by the commands one after the other without gap or overlap, and by zeros from where the commands stop to the end of the row. Otherwise it raises an exception; bytes of an earlier row never remain in a later one.",
     ["inputs", "configurations", "histories"], "every compressed row, every declared row length, both compressions, any number of rows through one decompressor",
     "A gap or a row left short shows only if the previous row differs there; the tests use a fresh buffer and complete rows.",
     ["src/decompressors.hpp"],
     [("zero fill", "src/decompressors.hpp DST_VALUES::fill"), ("sequential stores", "src/decompressors.hpp DST_VALUES")],
     "every write of the row buffer and every return of the decompressors in the IR",
     technique=ABS, note="The writes and the returns of the four instances of each decompressor are followed by ghost cursors; that each write starts at the cursor, and that a return finds the cursor at the declared length, are obligations discharged for all inputs by inferred relational invariants.")
prop("C03", "Every command of a compressed row produces what the format defines",
     "For every sequence of SAS RLE or RDC commands in a compressed row, the bytes produced are those the format defines: each command consumes exactly its own bytes in order, and writes the literal bytes, the repeated byte or the earlier part of the row it designates, with the length and the offset its bits encode. A well-formed row that fits the declared length is decompressed without an exception.",
     ["inputs", "configurations"], "every compressed row: every command, every length and offset, in every order; both endiannesses and widths",
     "The hand-written command tests cover a few lengths of each command; the boundaries of every length and offset field are not sampled.",
     ["src/decompressors.hpp"],
     [("RLE command table", "src/decompressors.hpp RLE"), ("RDC command table", "src/decompressors.hpp RDC"), ("control bits", "src/decompressors.hpp RDC::operator()")],
     "every read of the compressed row and write of the row in the IR, against a reference interpreter of the commands in step with it",
     technique=ABS, note="A reference description of the two formats runs in step with the accesses of the code inside the analysis (a product program); that each access, throw and return agrees with it are obligations discharged for all inputs. Known finding: the last one or two bytes of an RDC row (key rdc:tail).")
prop("C04", "Header, page and metadata reads stay inside the bytes fetched",
     "Whatever bytes a file holds, interpreting its header, its pages, its subheaders and its texts reads only inside the buffer that was fetched from the source, and fetching never writes past the end of that buffer. A length, offset or count of the file that would need more raises an exception.",
     ["inputs", "configurations"], "every byte sequence a source can deliver, both endiannesses, both widths, with and without compression",
     "The tests read well-formed files only: no offset, length or count of theirs points outside its page.",
     ["src/buffer.hpp", "src/header.hpp", "src/page.hpp", "src/metadata.hpp", "src/data.hpp", "src/memory.hpp", "src/types.hpp"],
     [("range check", "src/buffer.hpp BUFFER::assert_check"), ("subheader inside page", "src/page.hpp READ_PAGE::_get_page_subheader"), ("header length", "src/header.hpp READ_HEADER::set_header_length_and_read")],
     "the accesses of the reading path in the IR", state=[("buf", "bytes of the header or of the current page", "src/buffer.hpp")],
     technique=ABS, note="The complete reading path (header, metadata, data, getters), inlined, for each of the 12 combinations of endianness, width and compression; every access is an obligation discharged for all inputs.")
prop("C05", "A delivered row lies in its page and a column value in its row",
     "Every row handed to the user is a block of readable bytes of at least the declared row length, inside the current page or the decompression buffer, and reading the value of any column from a row, in any representation the column offers, touches only bytes of that row. A file declaring a column or a row that does not fit is rejected with an exception.",
     ["inputs", "configurations", "histories"], "every file content, every column the metadata can produce, every getter on every row, both endiannesses, both widths, each compression",
     "Sample files only have rows and columns that fit; the getters check nothing, so an over-read is silent.",
     ["src/data.hpp", "src/metadata.hpp", "src/formatters.hpp", "src/column.cpp", "src/types.hpp", "src/buffer.hpp"],
     [("row in page", "src/data.hpp READ_DATA::extract_row_values"), ("column in row", "src/metadata.hpp READ_METADATA::create_columns"), ("getters", "src/formatters.hpp")],
     "the bytes read by the getters and the extent of the row handed out",
     technique=ABS, note="Same analysis as C04; the obligations are the extent of each row returned and every access to row bytes by every getter of every formatter the metadata can create.")
prop("C06", "No file content terminates the process",
     "Whatever bytes a file holds, opening it, reading its rows and reading every value in every representation either succeeds or raises an exception the caller can catch: nothing on that path raises out of a function that promises not to, and no date or number conversion is applied to a value it cannot represent.",
     ["inputs", "configurations", "histories"], "every byte sequence a source can deliver, every getter on every row, both endiannesses, both widths, with and without compression",
     "A call to std::terminate needs a corrupt offset or an unrepresentable date in the right place; the sample files hold none.",
     ["src/buffer.hpp", "src/page.hpp", "src/metadata.hpp", "src/data.hpp", "src/formatters.hpp", "src/types.hpp", "src/exceptions.hpp"],
     [("checks raise", "src/buffer.hpp BUFFER::assert_check"), ("noexcept getters", "src/formatters.hpp"), ("date conversions", "src/types.hpp get_datetime_from_epoch")],
     "calls of std::terminate reachable on the reading path", technique=ABS,
     note="The complete reading path, inlined for each of the 12 combinations: every implicit call of std::terminate by a noexcept function is an obligation, discharged by showing its block unreachable.")
SAME = "equality of values by normal forms: abstract evaluation of the normalised LLVM IR over a byte-precise memory model (MemorySSA), decision diagrams for the conditions"

prop("C09", "Each row goes to the sink once, in order, with its index; the end is told",
     "For every file and every sequence of calls, a Reader gives its sink the properties once at the start, then each row it reads exactly once, in order, with the index that current_row_index() had before it was read, and end_of_data exactly when a call finds that no row is left, never before the last row. read_row and read_rows return true exactly when they read all the rows asked for, skip exactly when it skipped them all; read_row_no_sink returns the row, or null at the end, without telling the sink.",
     ["histories", "inputs"], "every row and row index, 0 to 3 rows left, 0 to 4 rows asked for, each operation of Reader",
     "The tests read whole files; the mixes of reading, chunks, skips and ends are in no test.",
     ["src/reader-impl.hpp", "src/reader.cpp", "include/cppsas7bdat/reader.hpp"],
     [("operations", "src/reader-impl.hpp ReaderImpl"), ("chunks", "src/reader-impl.hpp Reader::impl::read_rows"), ("facade", "src/reader.cpp")],
     "the calls to the sink, and the results of the methods of Reader",
     technique=SAME, note="The reading of the rows is abstracted by a source that gives any rows; each operation is evaluated on it for small numbers of rows, with symbolic row addresses and indexes; the loops do nothing else for more rows.")
prop("C10", "Every row of the file is read exactly once, in order, from its documented place",
     "For every file, the rows are those of its pages in file order: the k-th row of a data page is k row lengths after the page header, that of a mix page k row lengths after the subheader pointers (aligned), and the rows of a compressed meta page are its data subheaders, decompressed when they are shorter than a row. Pages without rows are passed over, at most row_count rows are read, skipping n rows leaves the reader exactly where reading n rows would, and the row index counts the rows read and skipped.",
     ["inputs", "histories"], "every page, row position, row length and row count; each kind of page and transition between pages; 32 and 64 bits, both endiannesses",
     "The samples hold few page layouts; skipping across pages and empty pages are in no test.",
     ["src/data.hpp", "src/page.hpp", "src/subheaders.hpp"],
     [("pages", "src/data.hpp PAGE"), ("next page", "src/data.hpp READ_DATA::next"), ("skip", "src/data.hpp READ_DATA::skip")],
     "READ_DATA::read_line, skip and current_row",
     technique=SAME, note="One step from any position of a page, and the transitions to the next page over 0 to 2 pages without rows; pages of any content.")
prop("C11", "The header properties are the fields of the file at their documented places",
     "For every file that is opened, the format, the endianness, the platform, the dates, the header and page lengths, the page count, the encoding and the texts of the properties are exactly the values stored at the documented offsets of the header, for both widths, both endiannesses and with or without the alignment shifts. The header is read entirely in its declared length, and a file that starts with the magic number and has a header long enough is not refused at that stage.",
     ["inputs", "configurations"], "every header: any bytes, the eight combinations of width, alignment shift and endianness",
     "The sample files come from a few SAS releases: several combinations of width, shift and endianness, and most values, are in no sample.",
     ["src/header.hpp", "src/buffer.hpp", "src/types.hpp", "src/encodings.cpp", "src/sas7bdat-impl.hpp"],
     [("alignment and endianness", "src/header.hpp CHECK_HEADER::set_aligns_endianness"), ("fields", "src/header.hpp READ_HEADER::set_header"), ("dispatch", "src/sas7bdat-impl.hpp read_header")],
     "Properties::Header after READ::header", state=[("Properties::Header", "what is known of the file", "include/cppsas7bdat/properties.hpp")],
     technique=SAME, note="Every field is shown equal to a reference expression over the symbolic bytes of the header, for all contents; texts are compared before the removal of blanks (texts without blanks), the removal itself is decided for texts of one byte.")
prop("C12", "The columns are those described by the metadata subheaders of the file",
     "For every file, the row length and count, the column count, and the name, label, format, offset, length and type (number or text) of each column are exactly those stored at the documented places of the subheaders of the meta, mix and amd pages, texts being those the index, offset and length of the subheader designate, and subheaders that are empty or truncated being ignored. A numeric column of 1 or 2 bytes is an integer, one of 3 to 8 bytes is a datetime, a date or a time exactly when its format is in the list for that type and a number otherwise, any other length is of unknown type without a value; the value of a column is read at its offset, over its length, in the byte order of the file. Compressed rows are the subheaders of a compressed file with compression 0 or 4 and type 1, and rows are on the pages of type data and mix.",
     ["inputs", "configurations"], "every content of the pages and subheaders, 32 and 64 bits, both endiannesses, every format text of up to 9 characters",
     "The samples hold few combinations of width and endianness, formats and numbers of columns; half of the fields are never checked for 32-bit big-endian files.",
     ["src/metadata.hpp", "src/columns.hpp", "src/page.hpp", "src/buffer.hpp", "src/formatters.hpp"],
     [("subheaders", "src/metadata.hpp READ_METADATA::process_subheader"), ("columns", "src/metadata.hpp create_columns"), ("pages", "src/page.hpp READ_PAGE")],
     "Properties::Metadata and its columns after READ::metadata",
     technique=SAME, note="Each field is shown equal to a reference expression over the symbolic bytes of the page, for subheaders of 0, 1 and 3 entries and formats of 0 to 9 characters; texts without blanks; page refused by a bounds check is out of scope of this property.")
prop("C14", "Numbers, integers and texts are those the bytes of the row represent",
     "For every row, the number of a column of 3 to 8 bytes is the IEEE double whose most significant bytes these are, in the byte order of the file; an integer column of one or two bytes gives that integer, also as a number; a text is the bytes of the column without the spaces and zeros that follow it. A column read as something it does not hold gives NaN, 0 or an empty text.",
     ["inputs", "configurations"], "every value of every byte of the column, every length of number, both endiannesses, every offset of the column in the row",
     "Unit tests compare a few numbers; lengths 4, 5 and 7 in big-endian files are in no sample.",
     ["src/formatters.hpp", "src/types.hpp", "include/cppsas7bdat/column.hpp"],
     [("getters", "src/formatters.hpp"), ("truncated numbers", "src/types.hpp get_incomplete_double"), ("byte order", "src/types.hpp ENDIAN")],
     "the values returned by Column::get_number, get_integer and get_string",
     technique=SAME, note="For all bytes and offsets; texts for columns of 1 to 5 bytes.")
prop("C26", "Dates, times and datetimes count from 1960-01-01",
     "For every row, the value of a date column is 1960-01-01 plus its number of days (or the date of that number of seconds when it is no representable number of days), and the value of a datetime or time column is 1960-01-01 00:00:00 plus its number of seconds, rounded to the microsecond; a number outside of the years 1400 to 9999, or missing, gives not-a-date. The columns stored on 3 to 7 bytes give the value of the completed number.",
     ["inputs", "configurations"], "every bit pattern of the stored number, lengths 3 to 8, both endiannesses",
     "Samples hold dates of a few decades, on 8 bytes.",
     ["src/types.hpp", "src/formatters.hpp"],
     [("conversion", "src/types.hpp get_datetime_from_epoch"), ("days or seconds", "src/types.hpp get_date_from_epoch"), ("getters", "src/formatters.hpp DateTimeFormatter")],
     "the values returned by Column::get_datetime, get_date, get_time and get_number",
     technique=SAME, note="For all bit patterns; the floating-point operations and the boost calendar are uninterpreted: the expression must be the reference one.")
prop("C15", "A column filter keeps exactly the columns it names",
     "For every set of names and every column, Include accepts the column if and only if its name is in the set, Exclude if and only if it is not, IncludeExclude follows the included names as soon as there are some and the excluded ones otherwise, and AcceptAll accepts everything. The comparison is on the complete name.",
     ["inputs", "configurations"], "every set of included and excluded names, every column name",
     "The combinations of empty, disjoint and overlapping sets are not sampled.",
     ["include/cppsas7bdat/filter/column.hpp"],
     [("filters", "include/cppsas7bdat/filter/column.hpp")], "the value of accept()",
     technique=SAME, note="The membership of a name in a std::set is an uninterpreted function of the set and the name.")
prop("C16", "A reader without a file is empty and safe to use",
     "On a reader that is default constructed, or whose file has been moved to another reader, every operation is defined: reading and skipping report that there is nothing, no row is returned, the row index is 0, the properties are empty, and nothing is dereferenced.",
     ["histories"], "every reader in that state, every argument, every order of the calls",
     "The tests never use a reader after it was moved.",
     ["src/reader.cpp", "include/cppsas7bdat/reader.hpp"],
     [("guards", "src/reader.cpp")], "the results of the methods of Reader",
     technique=SAME, note="Each method is evaluated on the three states (constructed, moved from by construction, by assignment); an access through the missing implementation makes what follows unreachable, which is reported.")
prop("C25", "The CSV sink writes the names and every value, in column order, to its own file",
     "For every file, the CSV sink writes a line with the quoted names of the columns separated by commas, then for each row it is given one line with one value per column, in the order of the columns, each read with the getter of its type from that row: texts between quotes, a missing number as nothing. Everything goes to the stream the sink was built with; a sink that owns its file still writes to it after it was moved.",
     ["inputs", "configurations"], "every list of columns, every row, every stream; a sink moved at any time before it is used",
     "The tests compare a few files; a type that is read with another getter or a row of a single column shows only with some columns.",
     ["include/cppsas7bdat/sink/csv.hpp", "include/cppsas7bdat/column.hpp"],
     [("lines", "include/cppsas7bdat/sink/csv.hpp push_row"), ("file", "include/cppsas7bdat/sink/csv.hpp csv_ofstream"), ("getters", "include/cppsas7bdat/column.hpp Column")],
     "the bytes written to the stream",
     technique=SAME, note="One and two columns of all types with unknown names and values; how fmt turns a value into text is not analysed, only which value goes where.")
prop("C18", "The print sink writes each property under its name and each row completely",
     "For every file, the print sink writes each property of the file under its own name, then the name, label, format and type of each column, then for each row its index and the text of every column, in the order of the columns. Names, labels and values from the file are written as they are: they are never interpreted as format strings.",
     ["inputs", "configurations"], "every property value, every list of columns, every row",
     "The tests do not look at what is printed for names with braces, nor at which property is under which name.",
     ["include/cppsas7bdat/sink/print.hpp", "include/cppsas7bdat/column.hpp"],
     [("properties", "include/cppsas7bdat/sink/print.hpp print_properties"), ("rows", "include/cppsas7bdat/sink/print.hpp push_row")],
     "the bytes written to the stream",
     technique=SAME, note="None, one and two columns with unknown contents; a format string that is no literal is a violation; how fmt turns a value into text is not analysed.")
prop("C13", "Each Python row has the value of every column, dates as Python dates",
     "A Python sink with push_row gets the properties first, then one call for each row, with its index and a list of one value per column, in the order of the columns: the bytes of a text, the float of a number, the integer of an integer, None for a column of unknown type. Dates, datetimes and times of a day become the Python date, datetime or time with the same year, month, day, hours, minutes, seconds and microseconds; a missing one is None.",
     ["inputs", "configurations"], "every list of columns, every value of every type, every representable date and time",
     "The tests compare some rows of some files; a column of unknown type, a missing time or a fraction of a second is in none of them.",
     ["python/pycppsas7bdat/cpp/sink.hpp", "python/pycppsas7bdat/cpp/import_datetime.cpp"],
     [("rows", "python/pycppsas7bdat/cpp/sink.hpp Sink::push_row"), ("dates", "python/pycppsas7bdat/cpp/import_datetime.cpp")],
     "the objects Python gets",
     technique=SAME, note="The C interface of Python and boost::python are stubs that record what they are given (probes/stub); one or two columns of all types.")
prop("C24", "The Python chunk and data sinks give every row once, in order, with its index",
     "A Python sink with push_rows gets chunks of chunk_size rows (the last one with the rows that are left), each with the index of its first and of its last row, also when rows were skipped, and with the values of each column in these rows, in order, under the name of the column. A sink with set_data gets all the rows in one call at the end. No row is given twice, none is lost and no call is made without a row.",
     ["inputs", "histories", "configurations"], "every chunk size, every number of rows, every sequence of row indexes, every type of column",
     "The tests read whole files with a few chunk sizes; a chunk that is full exactly at the end of the data, or that follows skipped rows, is rarely met.",
     ["python/pycppsas7bdat/cpp/sink.hpp", "src/column.cpp"],
     [("chunks", "python/pycppsas7bdat/cpp/sink.hpp SinkChunk"), ("data", "python/pycppsas7bdat/cpp/sink.hpp SinkData")],
     "the calls of push_rows and set_data",
     technique=SAME, note="Chunks of 1 and 2 rows, 0 to 3 rows with any index and any value, one and two columns of each type; boost::python is a stub that records the calls (probes/stub).")
prop("C19", "The Python binding owns each reference it holds, and only those",
     "A Python sink holds one reference to the object of the user from its construction to its destruction, however it was moved in between. Its attribute _cpp designates the sink that is in use and is removed at the end of the data or when the sink is destroyed, whichever is first. Every object returned by the conversions of dates and times, None included, is a reference the caller owns.",
     ["histories", "configurations"], "every sink type, moved or not, read to the end or not; every date and time",
     "A missing or extra reference crashes much later or leaks; no test counts references.",
     ["python/pycppsas7bdat/cpp/sink.hpp", "python/pycppsas7bdat/cpp/import_datetime.cpp"],
     [("sink", "python/pycppsas7bdat/cpp/sink.hpp SinkBase"), ("conversions", "python/pycppsas7bdat/cpp/import_datetime.cpp to_python")],
     "reference counts, the attribute _cpp",
     technique=SAME, note="The references held by boost::python::object are those of boost and are not followed; the stubs of probes/stub count the others.")
prop("C17", "The csv command never writes over its input file",
     "For every file name given to the csv command of cppsas7bdat-ci, the file that is written is another one than the file that is read, and the input is left as it was.",
     ["inputs", "configurations"], "every name, every file system", "The command is tested on one directory.",
     ["apps/cppsas7bdat-ci.cpp"], [("output", "apps/cppsas7bdat-ci.cpp process_csv")], "the files",
     na="Which file a path designates (links, mounts, case) is known to the file system only; no static argument over the source decides that two names are two files. The defect found in review is repaired.")
prop("C20", "What is pushed to R is never changed afterwards",
     "Each row or chunk given to an R sink keeps its values whatever the reader does next, and has every column of its rows, in order.",
     ["inputs", "histories"], "every history of rows", "The R tests look at values as they come.",
     ["R/CPPSAS7BDAT/src/sink.hpp", "R/CPPSAS7BDAT/src/sink_by_columns.hpp"], [("rows", "R/CPPSAS7BDAT/src/sink.hpp push_row")], "the R objects",
     na="Needs a model of Rcpp's proxies and of the sharing of R vectors that is right about aliasing, the very point of the property; Rcpp's code cannot be analysed without R's interpreter. The defects found in review are repaired.")
prop("C21", "The text of a date, a time or a number denotes its value",
     "to_string of a date, a time, a datetime or a number gives the text of that value, and never reads outside its buffers.",
     ["inputs"], "every value", "Only the dates of the test files are printed.",
     ["include/cppsas7bdat/types.hpp", "src/types.cpp"], [("text", "src/types.cpp to_string")], "the text",
     na="The text is made by fmt and by the facets of boost and of the C library, which the analysis takes as functions of their arguments; C18 and C25 decide which value is printed, nothing decides the digits.")
