_T = 'TLA+ specification %s, model checked with TLC (%s); recorded behaviours of the real code are judged by TLC against %s, which reuses its operators'
TECH['C01'] = (_T % ('TimeAxis (Calendar)', 'MC_TimeAxis: every clock over small records, all steps, calendars and output periods', 'TimeAxisTrace, which runs the clock along the stamps of the files'),
               'All small records exhaustively; real runs over sampled dates, time steps and output frequencies')
TECH['C05'] = (_T % ('Gauge', 'MC_Gauge: every distribution of every small record over every step length and offset', 'GaugeTrace'),
               'All small models exhaustively; real runs over sampled series, longitudes, step lengths and types')
TECH['C06'] = (_T % ('Gauge', 'MC_Gauge', 'GaugeTrace (shape clauses)'),
               'Shape exact up to the one-minute sampling of the intensity')
TECH['C07'] = (_T % ('Sun (fixed point solar geometry)', 'MC_Sun: a grid of latitudes and days', 'SunTrace'),
               'Fixed point arithmetic of 6 digits; real runs over sampled latitudes, days, steps and methods')
TECH['C08'] = (_T % ('Utc', 'MC_Utc: every small record, offset and step length', 'UtcTrace, which compares whole runs related by a shift in longitude'),
               'Offsets are whole minutes (longitudes in steps of 0.25 degrees)')
TECH['C09'] = (_T % ('TempCurve', 'MC_TempCurve: the curve between all combinations of extremes', 'TempTrace'),
               'Time of the extremes up to the width of a step; range and direction at every step')
TECH['C10'] = (_T % ('Thermo (saturation, pressure, humidity in fixed point)', 'MC_Thermo: grid of temperatures, elevations, lapse rates', 'ThermoTrace'),
               'Relations judged at every recorded step within the rounding of the record')
TECH['C16'] = (_T % ('Emissivity', 'MC_Emissivity: all formulas over a grid of temperature, vapor pressure and cloud', 'EmisTrace'),
               'Every formula at every recorded step within the rounding of the record')
TECH['C21'] = (_T % ('Mtclim and Windows', 'MC_Mtclim: the joint iteration for all kinds of days', 'MtclimTrace, which keeps the trailing windows along the record'),
               'Relations judged day by day within the rounding of the record')
TECH['C17'] = (_T % ('Passthrough (with Mtclim, Emissivity)', 'MC_Passthrough: every set of supplied variables and every order of the estimates', 'PassTrace'),
               'Means over days with sun and without UTC offset; relations within the rounding of the record')
TECH['C12'] = (_T % ('Units (meaning of the units)', 'MC_Units: every sequence of relabellings at every time step', 'UnitsTrace'),
               'Every supported unit and name; values with 7 digits; one known finding')
TECH['C03'] = (_T % ('Placement (domain, mask, chunks)', 'MC_Placement: every small grid, mask and chunking, each chunk computed and written by local index', 'PlacementTrace, which also compares with runs of single cells'),
               'Grids of up to 30 cells; results of a cell against a run of a domain with that cell only')
_DEP = 'Deps (provenance of every value against a dependence relation)', 'MC_Deps: every partition of a record into pieces, cells in any order, sources carried along the windows', 'DepsTrace, which decides for pairs of runs where they may and must differ'
TECH['C11'] = (_T % _DEP, 'Pieces, single changes in and outside the windows, longer records; equality to 1e-9 (2e-5 where the iteration couples days)')
TECH['C18'] = (_T % _DEP, 'Pairs of runs in which other cells change, come or go; equality to 1e-9')
TECH['C19'] = (_T % _DEP, 'Pairs of runs which differ in later days or their number; equality to 1e-9 (2e-5 where the iteration couples days)')
_RUN = 'Run (life of a run, its workers, the library lock and the files)'
TECH['C20'] = (_T % (_RUN, 'MC_Run: every interleaving of the workers with a failure or kill at every step and repeated runs', 'RunTrace; the histories of faults and the interleavings themselves are behaviours simulated by TLC and replayed into the code'),
               'Faults at calls of the netCDF library, in the computation and in the data; workers as threads or in turn')
TECH['C02'] = (_T % (_RUN + ' and Placement', 'MC_Run: every interleaving; MC_Placement: every small grid, mask and chunking', 'RunTrace; the turns the threads take are behaviours simulated by TLC and replayed into the code'),
               'Chunkings of grids of up to 18 cells; threads, processes, own and foreign distributed clusters')
TECH['C04'] = (_T % ('Session (objects a process holds, shared or copied)', 'MC_Session: every history of set-ups, runs, failures over two instances and several configurations', 'SessionTrace; the histories are behaviours simulated by TLC and replayed into the code'),
               'Histories of 9 operations over three configurations in one process, each compared with a run of its own')
_CONF = 'Config (options, their documented values and defaults; what is wrong with a configuration; its life from lines to a run or a refusal)'
TECH['C14'] = (_T % (_CONF, 'MC_Config: configurations written, read in any order, checked in any order', 'ConfigTrace; the configurations themselves are composed by TLC and expressed in every way'),
               'Every documented option and value; dictionary, text, INI, YAML and command line; equality of the output files and of what the run did')
TECH['C15'] = (_T % (_CONF, 'MC_ConfigOne: every single choice and mistake; MC_Config: combinations of them, checked in any order', 'ConfigTrace; all single mistakes and simulated combinations are taken from TLC and run'),
               'Documented options and values, one or several mistakes; what the output directory holds before and after')
TECH['C13'] = (_T % ('Reader (labelled data, the layouts they come in, what is read)', 'MC_Reader: every sequence of few operations on the layout, reading by label gives the same or nothing', 'ReaderTrace; the layouts are behaviours simulated by TLC and written as real files'),
               'Grids and units of up to 4 cells, a few days; sequences of up to 5 operations on forcing, state and domain; a run on each layout compared with one on plain files')
