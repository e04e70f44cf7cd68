T = 'factorio_sat/template.py'
TOOLS = ['factorio_sat/belt_balancer.py', 'factorio_sat/belt_balancer_net_free.py', 'factorio_sat/belt_balancer_net_free_power_of_2.py', 'factorio_sat/interchange.py', 'factorio_sat/make_block.py']
prop('C07', 'An external solver\'s answer is used exactly as given, or the tool fails',
     'With a solver command, the command gets the whole problem (on its input, or in the file that replaces $FILE), and the tool prints exactly the layout of the model the command reports, or nothing if it reports that there is none, '
     'however the command formats its answer and in whatever pieces it arrives. If the command cannot be started, dies or is cut off at any byte before its answer is complete, reports an unknown status or garbage, or if the problem file cannot be written, '
     'the tool prints no layout and ends with an error. Whenever the tool ends by itself, no temporary file and no solver process is left behind.',
     ['inputs', 'fault_sequences', 'crash_points', 'schedules'], 'every split of the output into pieces, every legal format, every byte at which the solver may die, every failing file operation',
     'Tests use the in-process solver only; crashes and partial output of another process are not reachable from a test without controlling it.',
     [T], [('command solver', T)], ['standard output and exit status of the tools', 'input of the solver process', 'temporary directory'],
     'exploration', 'Seeded search; the in-process solver with the same model is the reference for the printed layout, and the problem is compared clause by clause (or by mutual implication).',
     SIM + 'a simulated solver process with seeded output format, chunking and failures')
prop('C08', 'Solver libraries are driven by the IPASIR rules and never misread',
     'With a solver library, every call follows the IPASIR protocol: the whole problem is passed, values are read only after a satisfiable answer, every solver is released exactly once, also after errors and interrupts, and never used afterwards; '
     'callbacks stay alive as long as the library can call them. A terminated or unknown result is never taken as an answer: the tool fails. Variables the library leaves open do not matter: the printed layout is the one of a model that agrees with the library. '
     'Using a closed solver is refused.',
     ['histories', 'fault_sequences', 'inputs'], 'every sequence of operations on solver objects, every answer a conforming library may give',
     'No test loads a solver library; the answers of a library and its lifetime errors are not controllable from a test.',
     ['factorio_sat/ipasir.py', T], [('IPASIR binding', 'factorio_sat/ipasir.py'), ('use of libraries', T)], ['calls into the library', 'standard output and exit status of the tools'],
     'exploration', 'Seeded walks over the solver object and runs of the tools against a simulated library that checks every call.',
     SIM + 'a protocol-checking simulated solver library with termination and open variables')
prop('C09', '--all prints every layout exactly once, whatever models the solver picks',
     'With --all and an in-process or library solver, a layout tool prints every layout that satisfies the request exactly once and then ends, in whatever order the solver finds models. Without --all it prints exactly one if there is one. '
     'If the solver fails, the output closes, or the run is interrupted part way, the tool ends with an error and what it has printed are different layouts that satisfy the request. With make_block --output the layouts go to the file instead.',
     ['schedules', 'inputs', 'fault_sequences'], 'every order in which a solver may return models, every point of failure in an enumeration',
     'Tests see the one order of models of the default solver; which model a solver returns is its free choice.',
     [T, 'factorio_sat/solver.py', *TOOLS], [('enumeration of solutions', T), ('variables that distinguish layouts', 'factorio_sat/solver.py')], ['standard output and exit status of the tools'],
     'exploration', 'Seeded search over model orders; two enumerations through different back ends have to agree, and random models of the captured problem have to be among the printed layouts.',
     SIM + 'seeded choice of the solver\'s models, compared across back ends and orders')
BP = 'factorio_sat/blueprint.py'
prop('C10', 'The stream tools convert every record faithfully and never make one up',
     'blueprint encode and decode, blueprint_book pack and unpack, rotate and stringifier encode and decode turn each record of their input into the record with the same meaning, one for one and in order, in whatever pieces the input arrives and however the tools are chained. '
     'Encoding and decoding a layout gives it back (a blueprint keeps it up to its position and up to belts fed from outside). If the input ends in the middle of a record or cannot be read, or the tool is interrupted, killed or loses its reader, '
     'it does not end normally, every record it has printed is a correct one from the start of the input, and the complete records before the break are not lost.',
     ['inputs', 'histories', 'fault_sequences'], 'every layout, every pipeline of the tools, every byte at which the input may end or fail, every split into pieces',
     'The tests convert nothing through the command line tools; chunking, cut input and broken pipes do not occur in tests.',
     [BP, 'factorio_sat/blueprint_book.py', 'factorio_sat/rotate.py', 'factorio_sat/stringifier.py', 'factorio_sat/tile.py'],
     [('blueprint import and export', BP), ('books', 'factorio_sat/blueprint_book.py'), ('rotation', 'factorio_sat/rotate.py'), ('text form', 'factorio_sat/stringifier.py')], ['standard output and exit status of the tools'],
     'exploration', 'Seeded search over pipelines and faults; every stage is compared with an independent model of its conversion.',
     SIM + 'random pipelines of the real tools with cut, failing and fragmented input against a reference model of each conversion')
prop('C11', 'A damaged blueprint or partial layout is refused, never taken for another one',
     'If a blueprint string, a book or a layout file has been damaged in transit or at rest in any way that its format can reveal (characters changed, lost, repeated, swapped or cut off, files cut short), blueprint decode, blueprint_book pack and unpack and '
     'belt_balancer --partial end with an error instead of going on with different content; records before the damage are still converted. Damage that does not change the content changes nothing.',
     ['inputs', 'fault_sequences'], 'every position and kind of damage of every blueprint',
     'No test reads a damaged blueprint.',
     [BP, 'factorio_sat/blueprint_book.py', 'factorio_sat/belt_balancer.py'], [('decoding of blueprints', BP), ('partial layouts', 'factorio_sat/belt_balancer.py')], ['standard output and exit status of the tools'],
     'fault_enumeration', 'Seeded search over damage; the undamaged content is the reference.',
     SIM + 'corruption injection on the text the tools read')
RULES = 'Every printed layout obeys the rules of the game: every belt, underground and splitter is connected as its tile says, undergrounds are paired, within the given length and not crossed, nothing is side-loaded, and no belt ends or starts in the middle. '
prop('C12', 'belt_balancer prints exactly the layouts of the given network',
     RULES + 'The splitters are connected as the network says, whatever its notation (colour numbers, order of lines and sides); inputs enter and outputs leave on the sides that --90, --180 and --aligned ask for, side by side; colours are constant along each belt and those of the network. '
     'With --all, every such layout of the given size is printed (except those with an underground that passes only empty tiles), and with the options that narrow the search only such layouts: --break-symmetry alone keeps each layout or its mirror image, --edge-belts alone leaves out exactly those with two straight belts side by side at an end, and --expand-underground, --prevent-mergeable-underground or --glue-splitters (without --180) alone never leave none. With --partial exactly those that contain the given tiles; with --custom the ends are as given. '
     'This holds for every solver and every order of its models, and what a disturbed run has printed is correct as well.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every network, size and combination of options, every choice of models, every failure of the solver or of a file',
     'The test suite checks single tile patterns; whole layouts, options and completeness are not tested.',
     ['factorio_sat/belt_balancer.py', 'factorio_sat/solver.py', 'factorio_sat/optimisations.py', 'factorio_sat/network.py', 'factorio_sat/cardinality.py', 'factorio_sat/util.py'],
     [('rules of the grid', 'factorio_sat/solver.py'), ('network and ends', 'factorio_sat/belt_balancer.py')], ['standard output of belt_balancer'],
     'exploration', 'Small requests are compared with all layouts by an independent enumeration (committed table); larger ones with the rules, the network and layouts known to exist.',
     SIM + 'seeded model order, back end and faults, judged by an independent enumeration and tile-by-tile simulation of the layouts')
prop('C13', 'Balancers found without a network balance',
     RULES + 'With n inputs and n outputs, belt_balancer_net_free prints only layouts in which every output receives exactly 1/n of every input; belt_balancer_net_free_power_of_2 likewise, together with the first and last row of splitters that it leaves out. '
     'Inputs and outputs are as many as requested, side by side on the left and right, and aligned with --aligned; --partial tiles are kept. Requests for which a layout is known are answered with a layout, and --all includes the known ones.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every size and combination of options, every choice of models, every failure of the solver or of a file',
     'One test of the power-of-2 tool checks a single size; flows are never computed.',
     ['factorio_sat/belt_balancer_net_free.py', 'factorio_sat/belt_balancer_net_free_power_of_2.py', 'factorio_sat/solver.py', 'factorio_sat/optimisations.py', 'factorio_sat/util.py'],
     [('flow constraints', 'factorio_sat/belt_balancer_net_free.py'), ('levels and colours', 'factorio_sat/belt_balancer_net_free_power_of_2.py')], ['standard output of the tools'],
     'exploration', 'Exact steady-state flow of every printed layout; completeness only with respect to known layouts (committed table).',
     SIM + 'seeded model order, back end and faults, judged by exact flow simulation of the layouts')
prop('C14', 'Interchanges give every pair of outputs one belt of each group',
     RULES + 'interchange prints only layouts without splitters in which all rows enter on the left and leave on the right, and each pair of outputs gets one belt of the upper and one of the lower half of the inputs, in this order with --alternating; with --rot-symmetry the layout equals itself '
     'turned by 180 degrees with the flow reversed; --partial tiles are kept. Requests for which a layout is known are answered with a layout, and --all includes the known ones.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every size and combination of options, every choice of models, every failure of the solver or of a file',
     'interchange has no test.',
     ['factorio_sat/interchange.py', 'factorio_sat/solver.py', 'factorio_sat/optimisations.py', 'factorio_sat/util.py'], [('constraints', 'factorio_sat/interchange.py')], ['standard output of interchange'],
     'exploration', 'Every printed layout is followed belt by belt; completeness only with respect to known layouts (committed table).',
     SIM + 'seeded model order, back end and faults, judged by following every belt of the layouts')
prop('C15', 'make_block prints exactly the blocks that the options describe',
     RULES + 'make_block prints only blocks of belts and undergrounds without empty tiles (unless --allow-empty) from which nothing leads out; with --tile across the edges as if repeated, with --single-loop exactly one loop, with --no-parallel no undergrounds side by side, '
     'with --underground-length none longer. With --all every such block is printed exactly once (except those with a ring of four belts or an underground that passes only empty tiles), to the file given by --output if any. What a disturbed run has printed is correct as well.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every size and combination of options, every choice of models, every failure of the solver or of the output',
     'make_block has no test.',
     ['factorio_sat/make_block.py', 'factorio_sat/solver.py', 'factorio_sat/optimisations.py', 'factorio_sat/template.py'], [('constraints', 'factorio_sat/make_block.py'), ('rules of the grid', 'factorio_sat/solver.py')], ['standard output and output file of make_block'],
     'exploration', 'Small requests are compared with all blocks by an independent enumeration (committed table); larger ones with the rules.',
     SIM + 'seeded model order, back end and faults, judged by an independent enumeration')
NW = 'factorio_sat/network.py'
prop('C16', 'The network tool writes networks that mean what they should',
     'network create N writes a network of N inputs and N outputs that balances however belts of the same colour are joined; network flip writes the same network with inputs and outputs exchanged, and leaves its input alone; '
     'network parse writes a network that the given layout implements, in whatever direction the layout is turned and in whatever pieces it arrives. If the input is incomplete or malformed, a file operation fails or the tool is interrupted, it does not end normally.',
     ['inputs', 'fault_sequences', 'histories'], 'every size, network and layout, every failing file operation and cut of the input',
     'The network tool has no test.',
     [NW, BP], [('creation, reversal and parsing of networks', NW)], ['files written by the network tool', 'exit status'],
     'exploration', 'Seeded search; created networks are simulated exactly with random wirings, parsed ones matched with an independent reading of the layout.',
     SIM + 'the real tool on a simulated file system and fragmented input, judged by exact flow and an independent layout reader')
prop('C17', 'render shows and exports exactly the layouts that it is given',
     'render --export-all writes one video per layout of its input, in order and named by its number, with all pictures of the animation in order and upright, and ends normally. In the window, going forward and backward passes through all layouts read so far, wrapping around, the window fits the layout, '
     'the animation runs, saving exports the layout shown and printing gives its blueprint. Every picture shows every tile of the layout in its cell with the right sprite and direction. Layouts may arrive in any pieces and at any time. If the input is cut off or cannot be read, or ffmpeg is missing, dies or fails, '
     'render does not end normally, and every video it completed before is right.',
     ['inputs', 'schedules', 'fault_sequences'], 'every stream of layouts, every arrival time and sequence of key presses, every failure of the input or of ffmpeg',
     'render has no test; it needs a window, an OpenGL context and a video encoder.',
     ['factorio_sat/render.py', 'factorio_sat/tilemaps.py', BP], [('event loop and export', 'factorio_sat/render.py'), ('sprites', 'factorio_sat/tilemaps.py')], ['pictures in the window', 'frames sent to ffmpeg', 'standard output', 'exit status'],
     'exploration', 'Seeded search over inputs, key presses and failures; every picture is compared with the layout tile by tile. OpenGL is a model that keeps drawn primitives.',
     SIM + 'simulated window, clock, OpenGL and ffmpeg process with seeded arrival of input, key presses and encoder failures')
FE = 'factorio_sat/assets/fetch.py'
prop('C18', 'fetch_assets succeeds only if everything was brought over, and can be retried',
     'When fetch_assets ends normally, each of the textures that the renderer uses is in the folder of the package, byte for byte as in the installation, and the two recipe files list, for the normal and the expensive variant, exactly the recipes that are crafted by hand or in assembling machines without fluids, '
     'with their time, ingredients and results, in whatever notation and however many files they come. If a texture is missing, a recipe file is cut short, a file cannot be read or written, the disk is full, or the tool is interrupted or killed, it does not end normally; short reads and writes do not matter. '
     'Whatever happened, calling it again when the cause is gone completes the job, also over older or half-written files. The installation is never changed.',
     ['fault_sequences', 'crash_points', 'inputs', 'histories'], 'every file operation at which it may fail or stop, every content of the installation and every state left behind',
     'fetch_assets has no test; it needs an installation of the game.',
     [FE], [('copies of textures', FE), ('recipes', FE)], ['files of the assets folder', 'exit status'],
     'fault_enumeration', 'Seeded search over fault points and installations; the generator of the installation knows what has to be fetched.',
     SIM + 'a simulated file system with failing, short and interrupted operations, and a clean second call after each')
prop('C19', 'network render draws the network it is given and touches nothing else',
     'When network render ends normally, the picture asked for is there, in the format of its ending and laid out by the engine asked for (without a name: shown at once), and it has every splitter with each of its belts at its input or output side, labelled with their colour, joined, doubled and recirculated ones included, '
     'and the input and the output of the network marked. The network file and all other files are as they were, whatever their names, and nothing else is left behind. If the network is malformed or cannot be read, the layout command is missing, fails or is killed, a file cannot be written, or the tool is interrupted, it does not end normally.',
     ['inputs', 'fault_sequences', 'crash_points'], 'every network, every choice of names, every failure of the layout command and of file operations',
     'The network tool has no test; drawing needs the graphviz command.',
     [NW], [('drawing of networks', NW)], ['graph given to the layout command', 'files', 'exit status'],
     'exploration', 'Seeded search over networks, names and faults; the graph handed to the layout command is read back and compared with the network. The layout command is a model.',
     SIM + 'a simulated layout command and file system with missing, failing, killed and interrupted operations')
PURE = 'a pure function of its arguments: no schedule, time, I/O, randomness or failure for it to depend on, so one evaluation per argument is all there is to simulate, and covering all arguments would be enumeration or proof; '
prop('N01', 'Arithmetic and cardinality encodings are exact for every width',
     'For every number of bits and every bound, the clauses made for sums, counts, comparisons, negation and at-most/exactly-one constraints are satisfied by exactly the assignments that the arithmetic says, up to auxiliary variables.',
     ['inputs'], 'every width, bound and assignment', 'Tests evaluate a few widths.',
     ['factorio_sat/util.py', 'factorio_sat/cardinality.py'], [('encodings', 'factorio_sat/util.py')], ['clauses returned by the functions'],
     na=PURE + 'their use inside the layout tools is covered by C12-C15')
prop('N02', 'Directions and tile turns form the group they should',
     'For every tile and direction, turning four times and flipping twice give back the tile, turning and reading connections commute, and writing and reading a tile is the identity.',
     ['inputs'], 'every tile', 'The tiles are finitely many and tests can list them.',
     ['factorio_sat/direction.py', 'factorio_sat/tile.py'], [('algebra of directions', 'factorio_sat/direction.py')], ['values of the functions'],
     na=PURE + 'their use in rotate, blueprint and stringifier is covered by C10')
prop('N03', 'Every network that comes with the repository balances',
     'Each file of the networks folder describes a network of as many inputs and outputs as its name says in which every output gets an equal part of every input.',
     ['inputs'], 'every file of the folder', 'The files are data, not behaviour.',
     ['networks'], [('network files', 'networks')], ['content of the files'],
     na='a fact about constant data files: nothing runs, so there is nothing to schedule or to fail; networks made by the tool are covered by C16')
