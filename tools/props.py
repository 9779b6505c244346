W = 'weio/'
STD = 'Exhaustive over the bounded model; every reachable behaviour replayed through the public interface and every observation compared. Trusts TLC, the replay interpreter and the rational encoding of numbers.'

prop('C01', 'A file is opened by the first format, in priority order, that accepts it',
     'Opening a file without naming a format yields an object of the first registered format, in the published priority order (user formats included; among equals the built-in formats first, then the user modules by file name), whose extensions match the file name case-insensitively and whose reader accepts the file. A reader that rejects the file as not its format is skipped, any other error of a reader reaches the caller, and when no format accepts the file the caller gets FormatNotDetectedError. The outcome depends only on the file and the registered formats, never on what was opened before. The built-in readers reject each other\'s files: a legal file of a built-in format under its usual extension opens as that format (a table of a text file that CSV can read opens as CSV).',
     ['inputs', 'configurations', 'histories'], 'all files, all sets of registered formats (built in and user supplied) and all orders in which files are opened',
     'The tests open each sample file once with the built-in formats; they never combine rejecting, failing and accepting readers, nor user formats and priorities.',
     [W + '__init__.py', W + 'file_formats.py'], [('registry and stable priority sort', 'weio/__init__.py fileFormats'), ('detection loop', 'weio/__init__.py detectFormat'), ('verdict of one reader', 'weio/file_formats.py isRightFormat')],
     STD + ' The acceptance matrix of the built-in readers is measured on the code itself and the detected format is checked against it in the specification.',
     technique='TLA+ model of registry and detection; TLC behaviours replayed with stub user formats, recorded detections of real files validated against the spec')
prop('C02', 'Missing and empty files give the documented errors in every reader',
     'For every registered format, reading a path where there is no file raises an OSError of the file-not-found kind and reading a file of zero bytes raises EmptyFileError, whatever the object held or did before. Constructing a reader without a file name does nothing, and reading or writing without any file name raises an error. A failed read creates, changes or removes no file.',
     ['inputs', 'histories', 'configurations'], 'every registered format, at every point of every history of operations on the object',
     'No test reads a missing or an empty file for more than a few formats, none does so on an object that already holds data.',
     [W + 'file.py', W + '*_file.py'], [('existence and size checks', 'weio/file.py File.read and the read method of each reader')], STD)
prop('C03', 'Reading the content of a file object never changes it',
     'Converting to data frames, listing keys, printing, and writing to another path leave an object observably unchanged: any later conversion, access or write gives what it would have given without them, however often and in whatever order they are done. None of these operations touches the file that was read or any file other than the one written.',
     ['histories', 'inputs'], 'all interleavings of observers on objects of every format',
     'The tests convert each object once; a conversion that consumes or alters the stored data shows only on the second one.',
     [W + '*_file.py'], [('toDataFrame, keys, repr, write of each reader', 'weio/*_file.py')], STD)
prop('C04', 'Re-reading replaces the whole content, and objects are independent',
     'An object that reads a second file (or the same file again after it changed) is indistinguishable from a fresh object that read that file only: keys, values, tables and written output. Objects never share state: what is done with one has no effect on another, of the same or of another format.',
     ['histories', 'inputs'], 'all histories of reads, edits and conversions over several objects and files of every format',
     'Every test uses a fresh object per file.',
     [W + '*_file.py'], [('state reset in read', 'read/_read of each reader'), ('no module- or class-level state', 'weio/*_file.py')], STD)
prop('C05', 'What is written can be read back, and rewriting changes nothing',
     'For every format that can write, a file read, written to a new path and read again from there gives the same keys, values and tables (to the printed precision of the format), and writing that second object gives the same file content again (up to white space, time stamps and number spelling; formats that store quantised values may move by one step). A format that cannot write says so with an error.',
     ['inputs', 'histories'], 'all valid files of every writable format, any number of write/read rounds',
     'The tests check write-then-read on single samples and mostly compare text, not values.',
     [W + '*_file.py'], [('_write of each format', 'weio/*_file.py')], STD)
prop('C07', 'FAST input files: parameters are found, edited and written where they are',
     'In an OpenFAST input file every parameter line, whatever its type, spacing, comment or the order of the lines, is available under its name with the value on the line; assigning a value changes that parameter and nothing else, survives writing and reading with its type (logical, integer, float, quoted string, list), and assigning to a name that the file does not contain is refused. Comment and separator lines and all other parameters are written unchanged and in place.',
     ['inputs', 'histories'], 'all arrangements of parameter lines and all sequences of edits, writes and reads',
     'Tests use a few shipped files and compare one write; they do not vary line order, value syntax or edit sequences.',
     [W + 'fast_input_file.py'], [('line parser', 'weio/fast_input_file.py parseFASTInputLine'), ('key access', 'getID/__getitem__/__setitem__'), ('writer', 'toString')], STD)
prop('C08', 'FAST input files: tables, lists and output lists keep shape, order and values',
     'Every table of an OpenFAST input file is read with the number of rows announced by its dimension parameter, with its own column names and all its values, and every list of outputs with all its entries in order; editing them and writing gives a file that reads back with the edited content, the same dimension parameters, and everything else unchanged.',
     ['inputs', 'histories'], 'all table sizes including zero, all orders of tables and parameters, all edits',
     'The shipped samples have one size per table and are never edited except for one test.',
     [W + 'fast_input_file.py'], [('table detection and reading', 'weio/fast_input_file.py _read, parseFASTNumTable'), ('writer', 'toString')], STD)
prop('C09', 'CSV: the layout of a table is inferred correctly',
     'A delimited text table made of optional comment lines, an optional line of column names, an optional line of units and rows of numbers or words is read with exactly its names, its units, every data row and every value, whichever of the supported separators, comment styles, encodings and line endings it uses. A layout given explicitly by the caller (separator, comment character or lines, column names or their line) is followed as given.',
     ['inputs', 'configurations'], 'all combinations of separator, comments, header, units line, encoding and sizes, and all explicit options',
     'Tests cover a handful of layouts.',
     [W + 'csv_file.py'], [('inference', 'weio/csv_file.py CSVFile._read')], STD)
prop('C10', 'CSV: a written table reads back as the same table',
     'Writing a table through the CSV writer, with any of its separators, with or without header lines, and reading the file gives the same column names, the same rows in order and the same values; the object itself is not altered by writing.',
     ['inputs', 'configurations'], 'all tables of numbers, all writer options',
     'Only one table is written in the tests.',
     [W + 'csv_file.py'], [('writer', 'weio/csv_file.py CSVFile._write')], STD)
prop('C11', 'FAST binary outputs decode to exact channel values and survive rewriting',
     'For every binary output version (explicit or implied time, with or without compression, fixed or stated name width) the table read has the time column, every channel name and unit in file order, and for every time step the value (stored - offset)/scale, also for files larger than the read buffer. Writing the object produces a file in which every value differs by at most the quantisation step of its channel and every name, unit and time is kept.',
     ['inputs', 'configurations'], 'all versions, sizes (including one step and one channel), scales, offsets, name widths and buffer positions',
     'Tests read two sample files; buffer boundaries, name widths, constant channels and single steps are not reached.',
     [W + 'fast_output_file.py'], [('reader', 'weio/fast_output_file.py load_binary_output'), ('writer', 'writeBinary')], STD)
prop('C12', 'FAST text outputs and exported tables keep names, units and values together',
     'A FAST text output is read with every channel name, unit and value whatever its header, separators and trailing text, and writing it keeps names and units and the values to the printed precision. Exporting a table to a binary output keeps each column with its own name and unit and its values to the quantisation step.',
     ['inputs', 'configurations'], 'all header lengths, separators, numbers of channels and steps, ways of writing units in column names',
     'Two sample files are read in the tests, and one is written.',
     [W + 'fast_output_file.py'], [('reader', 'weio/fast_output_file.py load_ascii_output'), ('writers', '_write, writeDataFrame, writeBinary')], STD)
prop('C13', 'TurbSim boxes: every value at its component, time and place, read and written',
     'Reading a binary TurbSim box puts the value (stored - offset)/scale of each component, time step, lateral and vertical index, and of each tower point, at that index, with the coordinates, time step and reference values of the header. Writing a box produces a file that reads back with the same shape, coordinates, time step and identifier and with every value within one quantisation step of its component.',
     ['inputs', 'histories'], 'all grid sizes, tower sizes, numbers of steps, scales and fields',
     'Tests read one box and write one box of constant speed.',
     [W + 'turbsim_file.py'], [('codec', 'weio/turbsim_file.py read, write')], STD)
prop('C14', 'TurbSim derived data are those of the box, and the box stays as it is',
     'Point, line, plane, profile and probe queries return exactly the values of the box at the nearest (or the middle) grid position with the mean removed only when asked; making the box periodic appends its mirror image; scaling sets the mean and standard deviation of the reference point. Queries and conversions never change the box.',
     ['inputs', 'histories'], 'all boxes, all query positions and options, all orders of queries and modifiers',
     'The tests query a single box at a single point and never afterwards look at the box again.',
     [W + 'turbsim_file.py'], [('queries', 'weio/turbsim_file.py valuesAt, _longiline, horizontalPlane, vertProfile ...'), ('modifiers', 'makePeriodic, scale')], STD)
prop('C15', 'Mann boxes: indices, coordinates and conversions to and from TurbSim',
     'A Mann box file is read with the value of each (x, y, z) at its index, the lateral direction reversed with respect to the file, sizes and spacings as given or as encoded in the file name, and centred lateral coordinates; writing gives back the same bytes. Converting a TurbSim box to Mann boxes and back preserves every value of every component, removing a constant or the mean from the longitudinal component only when asked.',
     ['inputs', 'histories'], 'all box sizes, spacings, file names and fields',
     'Tests use one box.',
     [W + 'mannbox_file.py', W + 'turbsim_file.py'], [('codec', 'weio/mannbox_file.py read, write'), ('conversion', 'fromTurbSim, fromMannBox, toMannBox')], STD)
prop('C16', 'Bladed outputs: every variable and section lands in its own column',
     'For a Bladed result of any number of dimensions, binary or text, single or double precision, alone or with the other results of the same run, each variable is read with its name and unit and each of its values at the time or independent coordinate and section it belongs to; results without a time axis are tabulated as they are.',
     ['inputs', 'configurations'], 'all dimensions, numbers of variables, sections and steps, storage types and combinations of results of a run',
     'The tests open a few projects and look at a few column names.',
     [W + 'bladed_out_file.py'], [('header', 'weio/bladed_out_file.py read_bladed_sensor_file'), ('data', 'read_bladed_output'), ('tables', 'BladedFile.toDataFrame')], STD)
prop('C17', 'FLEX files: results, blades, profiles and wave kinematics are read as stored',
     'FLEX results of every supported version are read with the sensor names, units and values (times the stored scale) in order and the time axis of the header, with descriptions taken from an accompanying sensor file or built in otherwise; FLEX blade, profile, wave kinematic and documentation files give every stored table and parameter with its value.',
     ['inputs', 'configurations'], 'all sizes and contents of each of the FLEX file types',
     'The tests read one sample of each type.',
     [W + 'flex_out_file.py', W + 'flex_blade_file.py', W + 'flex_profile_file.py', W + 'flex_wavekin_file.py', W + 'flex_doc_file.py'],
     [('result reader', 'weio/flex_out_file.py read_flex_res'), ('blade/profile/doc readers', 'weio/flex_*_file.py')], STD)
prop('C18', 'HAWC2 results: every sensor and scan is read with its name, unit and scale',
     'HAWC2 results, binary (scaled integers, per channel) or text, are read with every sensor of the companion file in order, its name, unit and description, every scan, and the value stored times the scale factor of the channel; writing gives files that read back the same to the precision of the storage.',
     ['inputs', 'configurations'], 'all numbers of channels and scans, scale factors, storage types',
     'Tests read two samples.',
     [W + 'hawc2_dat_file.py', W + 'wetb/hawc2/Hawc2io.py'], [('reader', 'weio/wetb/hawc2/Hawc2io.py ReadHawc2'), ('writer', 'weio/hawc2_dat_file.py')], STD)
prop('C19', 'HAWC2 structural, airfoil, planform and htc files keep every set and value',
     'HAWC2 structural, profile-coefficient, planform and htc files are read with every set, subset, row, section and line in order and every value as in the file; the formats that can be written read back the same.',
     ['inputs', 'histories'], 'all numbers of sets, subsets and rows, all nesting of htc sections',
     'Tests read one sample of each.',
     [W + 'hawc2_st_file.py', W + 'hawc2_pc_file.py', W + 'hawc2_ae_file.py', W + 'hawc2_htc_file.py', W + 'wetb/hawc2/*.py'], [('readers', 'weio/wetb/hawc2/st_file.py, pc_file.py, ae_file.py, htc_file.py')], STD)
prop('C20', 'VTK legacy files: grids, cells and fields are read and written faithfully',
     'A legacy VTK file, text or binary, structured or unstructured, is read with the coordinates of every point, every cell and its type and every point and cell field with its name, components and values; structured grids are also available on their axes with each value at its grid index. Writing and reading gives the same mesh and the same fields.',
     ['inputs', 'configurations'], 'all grid kinds, sizes, storage types, and sets of fields',
     'Tests read a couple of samples.',
     [W + 'vtk_file.py'], [('reader', 'weio/vtk_file.py'), ('writer', 'weio/vtk_file.py write')], STD)
prop('C21', 'Tecplot text files: every zone and variable is read and written',
     'A Tecplot text file of any number of variables, zones and rows is read into one table per zone with the variable names and every value, and writing gives a file that reads back with the same title, variables, zones and values.',
     ['inputs', 'histories'], 'all numbers of zones, variables and rows and forms of the header lines',
     'Tests read three samples.',
     [W + 'tecplot_file.py'], [('reader and writer', 'weio/tecplot_file.py')], STD)
prop('C22', 'FAST linearization files: states, inputs, outputs and matrices are exact',
     'A linearization file is read with every state, derivative, input and output in order with its operating point and description, every matrix of the file entry by entry at its row and column, and the rotor speed, azimuth and wind speed of the header; the short names given to states and signals are unique and follow the described quantity and unit.',
     ['inputs'], 'all numbers of states, inputs and outputs (also none), all subsets of matrices',
     'Tests read one sample and look at a few entries.',
     [W + 'fast_linearization_file.py'], [('reader', 'weio/fast_linearization_file.py')], STD)
prop('C23', 'A FAST input deck loads and writes the files its main file names',
     'Reading a deck loads, for each module the main file switches on and the caller asked for, the file it names, resolved relative to the file that names it; files that are absent or unused are reported as such and do not stop the others. Writing a completely loaded deck to another folder gives a main file and module files that refer to one another and read back as the same deck (the blade and airfoil files which AeroDyn names are not part of what is written).',
     ['inputs', 'configurations'], 'all combinations of module switches, missing files, folder layouts and reader lists',
     'One test reads one deck.',
     [W + 'fast_input_deck.py'], [('deck reader and writer', 'weio/fast_input_deck.py')], STD)
prop('C24', 'Structure graphs: nodes, members, properties and topology are consistent',
     'The graph made of an input file has each node at its coordinates, each member between its two joints with its own properties, and node and element data equal to the table rows they come from; subdividing members keeps their ends, spreads the inserted nodes evenly between them and interpolates the nodal data that both ends have; queries of connectivity and neighbours agree with the current elements after any sequence of changes.',
     ['histories', 'inputs'], 'all graphs and all sequences of additions, subdivisions and queries',
     'Tests convert a few sample files and count nodes.',
     [W + 'tools/graph.py', W + 'fast_input_file_graph.py'], [('graph', 'weio/tools/graph.py'), ('conversion', 'weio/fast_input_file_graph.py')], STD)
prop('C25', 'SubDyn summaries: modes, nodes and tables match the file',
     'A SubDyn summary (yaml) is read with every scalar, list and matrix under its key, and the mode tables give for each mode and node the displacement of that node in that mode with the right coordinates, for each object separately.',
     ['inputs', 'histories'], 'all numbers of nodes, modes and all objects alive at the same time',
     'One sample is read.',
     [W + 'fast_summary_file.py', W + 'mini_yaml.py'], [('reader', 'weio/fast_summary_file.py'), ('yaml subset', 'weio/mini_yaml.py')], STD)
prop('C26', 'HAWCStab2, BModes and ROSCO tables are read with all rows and columns',
     'HAWCStab2 performance, induction and Campbell files, BModes outputs and ROSCO performance tables are read with every row, column, mode and surface at its own pitch angle, tip speed ratio, wind speed or position, with the names and units of the file.',
     ['inputs'], 'all numbers of rows, columns, modes and operating points',
     'One sample of each is read.',
     [W + 'hawcstab2_pwr_file.py', W + 'hawcstab2_ind_file.py', W + 'hawcstab2_cmb_file.py', W + 'bmodes_out_file.py', W + 'rosco_performance_file.py'], [('readers', 'weio/hawcstab2_*_file.py, bmodes_out_file.py, rosco_performance_file.py')], STD)
prop('C27', 'Spreadsheets, Parquet and NetCDF keep every sheet, column and value',
     'Reading a workbook gives one table per sheet with its names and values, a Parquet file its table, a NetCDF file its one- and two-dimensional variables, a TDMS file its channels over their time axis; writing the formats that can be written and reading back gives the same tables.',
     ['inputs', 'histories'], 'all numbers of sheets, columns, rows, and kinds of values',
     'One sample of each at most is read.',
     [W + 'excel_file.py', W + 'parquet_file.py', W + 'netcdf_file.py'], [('readers and writers', 'weio/excel_file.py, parquet_file.py, netcdf_file.py')], STD)
prop('C28', 'FAST wind files and TurbSim time series keep columns and rows',
     'A uniform wind file and a TurbSim time-series file are read with every comment, header value, row and column at its place, and written so that they read back the same.',
     ['inputs', 'histories'], 'all numbers of rows, points, components and comment lines',
     'One sample of each is read.',
     [W + 'fast_wind_file.py', W + 'turbsim_ts_file.py'], [('readers and writers', 'weio/fast_wind_file.py, weio/turbsim_ts_file.py')], STD)
