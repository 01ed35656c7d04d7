"""The properties, as data: tools/gen.py writes properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, tech="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mechanism=mechanism, tech=tech, note=note))


U = "fv3gfs/util/"

prop("C01", "The ranks' subtiles tile the domain",
     "For every layout and evenly divisible domain size, the regions of a tile or cube assigned to the ranks "
     "cover every point of the domain, and with overlap off no point belongs to two ranks (a shared interface "
     "point belongs to the greater rank, the last point of the tile to its last rank). With overlap on, two ranks "
     "share only interface points that lie on the line between them, and every region has exactly the rank's own extent. "
     "A region depends only on the rank, the dimensions, the extents and the layout.",
     ["inputs", "configurations"],
     "all layouts up to 8x8 (symbolic) and chosen ones up to 128x128, all cells-per-rank counts up to 128, every pair of ranks and every point of the domain",
     "The tests check a handful of literal layouts and extents; exact cover is a statement over all pairs of ranks and all points.",
     [U + "partitioner.py", U + "utils.py"],
     [("subtile_slice", U + "partitioner.py:subtile_slice"), ("_index_generator", U + "partitioner.py"),
      ("rank_extent_from_tile_metadata", U + "partitioner.py")])

prop("C02", "Rank extents and domain extents determine each other",
     "For every layout and every evenly divisible domain, the extent of a rank is the domain's extent divided by the "
     "layout in each horizontal dimension (interface dimensions keep their extra point, other dimensions are unchanged, "
     "in any dimension order), and the domain extent computed back from a rank's extent is the one it came from. "
     "The cube has six tiles: its extents carry a leading tile dimension of six and its number of ranks is six times a tile's.",
     ["inputs", "configurations"],
     "all layouts up to 256x256 and up to 4096 cells per rank, all extents of the other dimensions up to 64",
     "The tests use layouts of one to three; the division went wrong only from a layout of 49 on.",
     [U + "partitioner.py"],
     [("tile_extent_from_rank_metadata", U + "partitioner.py"), ("rank_extent_from_tile_metadata", U + "partitioner.py"),
      ("extent_from_metadata", U + "partitioner.py")])

prop("C03", "Neighbour relations match the geometry of the cube",
     "For every square layout, rank and direction (four edges, four corners), the cubed-sphere partitioner names the rank "
     "that is adjacent on the folded cube and the number of quarter turns between the two sets of axes, and says there is no "
     "neighbour exactly at the eight corners of the cube; adjacent ranks name each other with opposite turns. "
     "A single tile is doubly periodic: its neighbours wrap around for every rectangular layout with no turns. "
     "Layouts that are not square are refused on the cube, and tile index, root rank and edge membership of each rank agree with its position.",
     ["inputs", "configurations"],
     "every rank and direction of the cube with layouts 1 to 6, 8, 12, 16, 24 and 48 (1 to 32, 48, 64 and 96 in the thorough tier), every rank of any periodic tile up to 12x12",
     "The tests list expected ranks for 1x1 to 3x3; larger layouts have interior ranks, non-corner edges and long edges they never visit.",
     [U + "partitioner.py", U + "boundary.py"],
     [("CubedSpherePartitioner.boundary", U + "partitioner.py"), ("corner construction", U + "partitioner.py:_get_corner"),
      ("TilePartitioner.boundary", U + "partitioner.py")])

prop("C04", "A halo update fills every halo point with the neighbour's value",
     "After a halo update of width w, every halo point within w of a rank's compute domain, across each edge and each existing corner, "
     "holds the value the adjacent rank has at that point of the cube, rotated into the receiver's axes; interface variables skip the shared edge. "
     "No other element changes: compute domain, halo beyond w, the halo at the cube's corners and padding keep their values. "
     "This holds for any dimension order, memory layout, element type, origin, extent, number of extra dimensions and padding of each rank, and any schedule of the ranks. "
     "An update of width zero, or wider than the halo of the arrays, is refused with a ValueError on every rank, leaves all data as they were and does not affect later updates.",
     ["inputs", "configurations", "schedules"],
     "all compute sizes up to 64, halo widths up to 5, origins and padding up to the stated sizes, layouts 1 to 3, rank schedules in both "
     "orders with buffers read at post time or as late as MPI allows",
     "Tests run a few sizes with one mock communicator that copies at send time and runs the ranks in order.",
     [U + "communicator.py", U + "boundary.py", U + "_boundary_utils.py", U + "rotate.py", U + "buffer.py", U + "partitioner.py"],
     [("start_halo_update", U + "communicator.py"), ("send_view/recv_view", U + "boundary.py"),
      ("rotate_scalar_data", U + "rotate.py"), ("send_buffer/recv_buffer", U + "buffer.py")])

prop("C05", "A vector halo update fills halos with correctly turned components",
     "After a vector halo update of width w, every halo point of both components within w of the compute domain holds the neighbour's vector "
     "at that point, expressed in the receiving rank's axes: the right component with the right sign at the right point, for cell-centred, "
     "C-grid, D-grid and corner-point vectors in any dimension order, also when the two components are padded differently. "
     "No other element of either component changes. A width of zero, or one wider than the halo, is refused with a ValueError and changes nothing.",
     ["inputs", "configurations", "schedules"],
     "all compute sizes up to 64, halo widths up to 5, origins and padding up to the stated sizes, layouts 1 and 2, both rank orders, both buffer capture moments",
     "Tests check rotated constant fields; the position of a value along a turned edge and staggered combinations are not observed.",
     [U + "communicator.py", U + "rotate.py", U + "boundary.py"],
     [("start_vector_halo_update", U + "communicator.py"), ("rotate_vector_data", U + "rotate.py")])

prop("C06", "Synchronising vector interfaces makes shared edges agree",
     "After synchronising the interfaces of a C-grid vector, the north edge of each rank's x-component and the east edge of its y-component "
     "hold the values the adjacent rank has on that shared edge, turned and signed into the receiver's axes. "
     "No other element changes, for any sizes, padding and dimension order; a vector that is not on the C grid is refused.",
     ["inputs", "configurations", "schedules"],
     "all compute sizes up to 64 with symbolic padding, layouts 1 to 3, both rank orders, both buffer capture moments",
     "Tests use constant signed values in y, x order; order along a turned edge and other dimension orders are not observed.",
     [U + "communicator.py", U + "quantity.py", U + "_boundary_utils.py"],
     [("start_synchronize_vector_interfaces", U + "communicator.py"), ("corner views", U + "quantity.py:BoundaryArrayView")])

prop("C07", "Outstanding updates do not disturb one another",
     "Any set of halo updates, vector updates and interface synchronisations started on distinct variables before any is waited for ends with "
     "each variable as if its update alone had been done, whatever order each rank waits in and whenever the library beneath reads the "
     "send buffers, provided the requests are finished. Once a rank's wait has returned, it may change its variables without changing what "
     "other ranks receive. Every message sent is received.",
     ["schedules", "histories", "inputs"],
     "pairs and triples of scalar, vector and synchronisation requests with rank-dependent wait orders, sizes and halo widths symbolic, layout 1 (and 2 thorough)",
     "Tests start at most two requests, wait in order, and copy the data at send time.",
     [U + "communicator.py", U + "buffer.py"],
     [("tags", U + "communicator.py:_get_halo_tag"), ("HaloUpdateRequest.wait", U + "communicator.py"),
      ("recycled buffers", U + "buffer.py:array_buffer")])

prop("C08", "Communication never deadlocks, even with synchronous sends",
     "Halo updates, vector updates, interface synchronisation, scatter, gather and state transfer complete on every rank under every schedule, "
     "even if each message needs its receiver to have posted the matching receive (no buffering), in any mix and order that all ranks share.",
     ["schedules", "configurations"],
     "every schedule of the ranks (the matching order is expressed as symbolic time stamps), layouts 1 and 2, symbolic sizes",
     "Tests run one schedule with a buffering mock; rendezvous sends and other orders never occur.",
     [U + "communicator.py"],
     [("HaloUpdateRequest.wait", U + "communicator.py"), ("_Isend", U + "communicator.py"), ("_Irecv", U + "communicator.py")])

prop("C09", "Scatter gives every rank its share",
     "Scattering a quantity over a tile or the whole cube gives each rank a quantity whose compute domain equals that rank's share of the sender's "
     "compute domain, with its dimensions, units and element type; given a quantity to receive into, only its compute domain changes, and otherwise the result is a rank's own: it shares no memory with what was sent or with earlier results. "
     "This holds whatever the padding, memory order, dimension order, and history of earlier transfers; the sent quantity is unchanged. A root that has nothing to send is a TypeError.",
     ["inputs", "configurations", "histories"],
     "all cells per rank up to 64 with symbolic origins and padding, layouts up to 2x3 on a tile and 2x2 on the cube, repeated transfers",
     "Tests scatter a few literal arrays once.",
     [U + "communicator.py", U + "partitioner.py", U + "buffer.py"],
     [("Communicator.scatter", U + "communicator.py"), ("subtile_slice", U + "partitioner.py")])

prop("C10", "Gather assembles the whole domain, and undoes scatter",
     "Gathering gives the root one quantity of the whole tile or cube in which every point holds the value of a rank that owns it, and nothing else on "
     "any rank changes; a receiving quantity keeps its halo, and without one the result shares no memory with what was sent or with earlier results. Gathering what was scattered gives back the original compute domain, "
     "dimensions, units and element type.",
     ["inputs", "configurations", "histories"],
     "all cells per rank up to 64 with symbolic origins and padding, layouts up to 2x3 on a tile and 2x2 on the cube, repeated transfers",
     "Tests gather a few literal arrays once.",
     [U + "communicator.py", U + "partitioner.py", U + "buffer.py"],
     [("Communicator.gather", U + "communicator.py"), ("TileCommunicator.gather", U + "communicator.py")])

prop("C11", "State transfer keeps every variable and the time",
     "Scattering a state gives every rank exactly the sent variables, each with its own share, and the time if one was sent; a state to receive into keeps "
     "its other entries, its own time when none is sent, and has its quantities filled in place. Gathering a state gives the root every variable assembled "
     "and the time, and gives other ranks nothing; the states passed in are not altered.",
     ["inputs", "configurations", "histories"],
     "states of up to five variables of different staggering and awkward names with and without time at any position, symbolic sizes and padding, with and without receiving states",
     "Tests use one or two states of equal shape, always with a time or always without.",
     [U + "communicator.py"],
     [("scatter_state", U + "communicator.py"), ("gather_state", U + "communicator.py")])

prop("C12", "The compute-domain view indexes relative to the compute domain",
     "Reading or writing the view of a quantity with an integer or slice in the compute domain addresses the element at that offset from the origin; open "
     "slice ends and missing trailing indices mean the compute domain's own ends, steps are kept, and selection by dimension name is the same as indexing. "
     "A write through the view, or through what reading it returned, changes exactly the addressed elements of the underlying data; too many indices are an IndexError.",
     ["inputs"],
     "all non-negative indices and slices, steps up to 10 and some larger, forwards and backwards, on up to four dimensions with symbolic origin, extent and padding",
     "Tests compare literal slices on small fixed arrays.",
     [U + "quantity.py", U + "_boundary_utils.py"],
     [("BoundedArrayView", U + "quantity.py"), ("bound_default_slice", U + "_boundary_utils.py")])

prop("C13", "Corner and interior views index relative to their corner",
     "For each of the four corner views, an integer or slice end k in a horizontal dimension addresses the element k away from that corner of the "
     "compute domain (the first point at or inside a start edge, the first point beyond an end edge), negative numbers included; the interior view counts "
     "starts from the first and ends from one past the last compute point. Open ends and other dimensions mean the compute domain, "
     "and writes change exactly the addressed elements of the underlying data.",
     ["inputs"],
     "all offsets in the array, all four corners and the interior, up to three dimensions in any order, symbolic origin, extent and padding",
     "Tests check a few literal offsets on fixed arrays.",
     [U + "quantity.py", U + "_boundary_utils.py"],
     [("BoundaryArrayView", U + "quantity.py"), ("_shift_boundary_slice", U + "_boundary_utils.py")])

prop("C14", "Transposing a quantity moves data and metadata together",
     "Transposing a quantity gives one whose element at a position of named dimensions is the same element as in the original, with origin, extent and "
     "dimensions permuted alike and units kept; targets may be groups of alternative names. The data is shared, not copied, "
     "and absent or ambiguous targets are a ValueError that leaves the quantity as it was.",
     ["inputs", "configurations"],
     "every permutation of up to four dimensions including groups of names, symbolic shapes, origins and extents",
     "Tests list a few permutations of fixed shapes.",
     [U + "quantity.py"],
     [("Quantity.transpose", U + "quantity.py"), ("_collapse_dims", U + "quantity.py")])

prop("C15", "Rotations form the cyclic group of quarter turns",
     "Rotating scalar or vector data by n quarter turns clockwise moves each value, and turns each vector, as a rotation of the plane does, for any n, any "
     "dimension order and any extra dimensions; dimensions other than horizontal ones are untouched. Rotating by a then by b equals "
     "rotating by a + b, four turns are the identity, and the input is not modified.",
     ["inputs"],
     "all turn counts from -8 to 8, square and rectangular symbolic sizes, dimension orders of up to four dimensions",
     "Tests use literal small arrays and counts 0 to 4.",
     [U + "rotate.py"],
     [("rotate_scalar_data", U + "rotate.py"), ("rotate_vector_data", U + "rotate.py")])

prop("C16", "Corner filling copies the documented points only",
     "Filling the corners in direction x sets the halo point i points beyond an x-edge and j points beyond a y-edge, at each corner of the cube's tile which the rank "
     "touches, to the value j points beyond that x-edge and i points inside that y-edge (in direction y: i beyond the y-edge and j inside the x-edge), not counting an edge "
     "point shared by two tiles, for i and j up to the halo width, and changes nothing else. Ranks or corners away from the tile's corners are unchanged, for any sizes, origins, "
     "padding and halo width; quantities whose first two dimensions are not x then y are refused.",
     ["inputs", "configurations"],
     "halo widths 1 to 3, symbolic sizes and origins, both directions, cell-centred and interface dimensions",
     "Tests fix one small array per case.",
     [U + "_corners.py"],
     [("fill_scalar_corners", U + "_corners.py")])

prop("C17", "Recycled transfer buffers are exclusive and faithful",
     "A buffer obtained for a transfer is contiguous, comes from the requested allocator with the requested shape and element type, and is never handed out again while it is in use; a send buffer "
     "carries exactly the array's values, and what is put in a receive buffer ends in the array when its use ends. "
     "An array that is already contiguous is used directly. This holds in any nesting and order of uses, also when the work within one fails.",
     ["histories", "inputs"],
     "histories of up to four nested or sequential buffer uses with symbolic equal-or-different shapes and contents",
     "Tests acquire one or two buffers.",
     [U + "buffer.py", U + "utils.py"],
     [("array_buffer", U + "buffer.py"), ("send_buffer", U + "buffer.py"), ("recv_buffer", U + "buffer.py")])

prop("C18", "Timers account exactly for the time between start and stop",
     "For any history of starting, stopping, reading, resetting, enabling and disabling, the time reported for a name is the sum over its completed "
     "start-stop pairs of the clock's advance, and the hit count is their number, since the last reset; other names never influence it. "
     "A clock used as a context stops when its body ends or raises; starting a running clock and disabling while one runs are refused. A disabled timer records nothing, and a null timer never does.",
     ["histories", "inputs"],
     "all histories of up to five operations on two names with an arbitrary non-decreasing symbolic clock",
     "Tests run a few histories with real sleeps.",
     [U + "_timing.py"],
     [("Timer", U + "_timing.py"), ("NullTimer", U + "_timing.py")])

prop("C19", "The Zarr monitor stores every rank's data at its time and place",
     "After any number of stores by all ranks, the stored array of each variable holds at [time, tile, ...] the values each rank had in its compute domain at that store "
     "(interface points shared by ranks hold the value of one of them), every point and every time written, with the quantity's dimension names and attributes. "
     "The time axis decodes to the stored times in the calendar of the first; a state with other names, dimensions, sizes, units or calendar than the first is refused with a ValueError, nothing of it is stored, and later stores are unaffected.",
     ["inputs", "histories", "configurations"],
     "layouts up to 2x2, up to three stores, symbolic sizes and padding, all staggerings",
     "Tests store one layout with equal sizes and check single ranks.",
     [U + "zarr_monitor.py", U + "partitioner.py"],
     [("_ZarrVariableWriter.append", U + "zarr_monitor.py"), ("_ZarrTimeWriter.append", U + "zarr_monitor.py")])

prop("C20", "No two ranks ever write the same Zarr chunk",
     "For every layout, evenly divisible domain size and variable with both horizontal dimensions (cells or interfaces, in any order), the chunks of the stored array are chosen so that "
     "two different ranks never write to the same chunk, and every chunk belongs to a single time and tile. "
     "Chunks are never empty, and no smaller than a rank's share.",
     ["inputs", "configurations"],
     "all layouts up to 8x8, up to 1024 cells per rank, any two ranks and any two points they write",
     "Tests check a few literal chunk shapes, not who writes which chunk.",
     [U + "zarr_monitor.py", U + "partitioner.py"],
     [("array_chunks", U + "zarr_monitor.py"), ("subtile_slice", U + "partitioner.py")])

prop("C21", "Nudging applies the relaxation tendency exactly",
     "Nudging changes each nudged variable's compute domain by the time step times (reference - value) / timescale, computed from the values before, and returns "
     "those tendencies with the variable's dimensions and units per second; variables not nudged, the reference state and all halos keep their values. "
     "Nudging a variable missing from the state or from the reference is an error that changes nothing.",
     ["inputs"],
     "arbitrary real values, symbolic sizes, origins and different padding of state and reference, several variables with different timescales",
     "Tests use a few constants and unpadded quantities.",
     [U + "nudging.py"],
     [("apply_nudging", U + "nudging.py"), ("get_nudging_tendencies", U + "nudging.py")])

prop("C22", "Allocated quantities have the decomposition's geometry",
     "A quantity factory gives, for any dimensions, a quantity whose extent is the rank's share of the tile (plus one for interface dimensions), whose origin is the halo "
     "width in horizontal dimensions and zero elsewhere, and whose array has room for the halo on both sides, with the requested units, element type and fill. "
     "The sizer built from a tile's sizes or a namelist agrees with the partitioner's own extents for every rank, and partitioners built from a namelist have its layout; an unknown dimension is an error.",
     ["inputs", "configurations"],
     "all layouts up to 8x8, sizes up to 128, halo widths up to 8, every dimension combination used in the model",
     "Tests tabulate a few sizes.",
     [U + "initialization/sizer.py", U + "initialization/allocator.py"],
     [("SubtileGridSizer", U + "initialization/sizer.py"), ("from_namelist", U + "partitioner.py"), ("QuantityFactory", U + "initialization/allocator.py")])

prop("C23", "Opening restart files gives every rank its share under standard names",
     "Opening a restart directory gives every rank its share of its tile's files' variables: those with restart metadata (the user's tracers included) under their standard name, with its dimensions and units, "
     "others under their own name if the file states units, plus the time of the coupler file when present. Only requested names are loaded, "
     "and given quantities are filled in place; the label is prepended to every file name and optional files may be absent.",
     ["inputs", "configurations"],
     "symbolic field sizes and values, layouts 1x1 and 2x2, with and without label, optional files, selected names, and a state to fill",
     "Tests open one stored data set.",
     [U + "_legacy_restart.py", U + "io.py", U + "communicator.py"],
     [("open_restart", U + "_legacy_restart.py"), ("restart_filenames", U + "_legacy_restart.py")])

prop("C24", "Writing and reading a state is lossless for the compute domain",
     "Reading a state written to a file gives the same names, and for each variable the same compute-domain values, dimensions and units, whatever the units, and the same time. A "
     "state without a time is refused before anything is written, a file whose time is not a single date is refused on reading, and the written state is not altered.",
     ["inputs"],
     "symbolic sizes, padding and values for several variables; the file library is a stand-in that keeps what it is given (the real one in replays)",
     "Tests round-trip nothing with halos or different variables.",
     [U + "io.py", U + "_xarray.py", U + "quantity.py"],
     [("write_state", U + "io.py"), ("read_state", U + "io.py")])

prop("C25", "The coupler date file is read with its own calendar",
     "Reading a coupler restart file gives the current date, to the second, from its third line in the calendar its first line names, whatever the spacing, leading zeros and trailing comments. "
     "A calendar number that is not known and a field that is not a number are errors.",
     ["inputs"],
     "all calendars, all date fields in their ranges",
     "The tests read two literal files.",
     [U + "io.py", U + "time.py"],
     [("get_current_date_from_coupler_res", U + "io.py")])

prop("C26", "The mock communicator behaves as the real one in rank order",
     "Messages sent through the mock communicator arrive unchanged, in order per sender and receiver, and are independent of later changes of the sender's data; scatter and "
     "gather move the same rows as the real collectives, and broadcasts reach every rank, any number of times, with senders called before receivers. "
     "Receiving what was not sent, gathering before all ranks called, and broadcasting or scattering from a rank other than the first are errors that change nothing.",
     ["histories", "inputs"],
     "histories of up to four messages and collectives among up to three ranks with symbolic data",
     "Tests use it without checking it.",
     [U + "testing/dummy_comm.py"],
     [("DummyComm", U + "testing/dummy_comm.py")])

prop("C27", "Boundary views select exactly the edge points, or refuse",
     "For every boundary, dimension order, staggering and width, the interior view is the band of that width just inside the edge (inside the shared edge for interface "
     "dimensions) and the exterior view the band just outside, each limited to the compute domain along other dimensions, and both are views of the quantity's data. "
     "If a band does not fit in the array an out-of-bounds error is raised and nothing is selected.",
     ["inputs"],
     "all widths up to 8 with symbolic origin, extent and padding, eight boundaries, up to three dimensions in any order",
     "Tests check literal slices of fixed arrays.",
     [U + "_boundary_utils.py", U + "boundary.py"],
     [("get_boundary_slice", U + "_boundary_utils.py"), ("SimpleBoundary", U + "boundary.py")])

prop("C28", "Quantities keep the data and metadata they were given",
     "A quantity refers to the array it was given without copying, defaults its origin to zero and its extent to the rest of the array, and reports dimensions, units, origin, extent "
     "and element type as given; a number of dimensions, origins or extents that differs from the array's is a ValueError and one that is not a number is an error. "
     "Conversion to and from a labelled array keeps values, dimensions and units of the compute domain.",
     ["inputs"],
     "arrays of up to four dimensions with symbolic shapes, origins and extents, every mismatch of lengths",
     "Tests use fixed shapes.",
     [U + "quantity.py"],
     [("Quantity.__init__", U + "quantity.py"), ("_validate_quantity_property_lengths", U + "quantity.py")])

prop("C29", "Boundary requests do not depend on history",
     "The boundary a partitioner returns for a direction and rank depends only on the layout, direction and rank: not on earlier requests, not on what callers did to boundaries "
     "they were given, and not on other partitioners.",
     ["histories", "inputs", "configurations"],
     "all directions and ranks of layouts up to 4, histories of two requests with a change of the first answer between them",
     "Tests check a single changed boundary.",
     [U + "partitioner.py"],
     [("copy of the cached boundary", U + "partitioner.py:boundary")])

prop("C30", "Numpy times convert to the datetime they denote",
     "Converting a numpy time stamp of whole microseconds gives the datetime, without a time zone, of the same instant in UTC, exact to the microsecond, "
     "whatever the unit of the time stamp and the zone of the computer.",
     ["inputs"], "every time stamp of whole microseconds of the years 1 to 9999",
     "No test converts other than a literal.",
     [U + "time.py"], [("datetime64_to_datetime", U + "time.py")])

prop("C31", "Unit strings compare equal exactly but for surrounding space",
     "Two unit strings are equal exactly when they are the same, letter for letter, but for white space before and after them, in either order of comparison; "
     "ensuring equal units raises UnitsError exactly when they differ and otherwise does nothing.",
     ["inputs"], "all pairs of strings of up to four characters, each any character up to U+3000",
     "No test compares unit strings.",
     [U + "units.py"], [("units_are_equal", U + "units.py"), ("ensure_equal_units", U + "units.py")])

prop("C32", "Captured streams hold exactly what was written",
     "Everything written to a captured stream during the capture, through the stream or directly to its descriptor, ends in the captured buffer, each level in order, and nothing "
     "written before or after does. Afterwards, also when the body raises, the stream writes where it did before and no descriptor is left open; captures may be nested and repeated.",
     ["inputs", "histories", "fault_sequences"], "every history of up to four operations on one or two streams, with data of symbolic length around the stream's buffer size",
     "One test writes one string to a stream that does not buffer, and leaves without an exception.",
     [U + "_capture_stream.py"], [("capture_stream", U + "_capture_stream.py")])

prop("C33", "Storage-backed quantities show one memory as data, view and storage",
     "A quantity with a storage backend has a storage of that backend holding the values it was given, with the quantity's shape, element type and, when the package makes it, "
     "origin as default origin; what is written through its data, view or storage shows in the others. A given storage is used as it is. Transposing, scattering and gathering keep the "
     "backend, and a factory for a backend makes such quantities. Asking for a backend next to a storage, or for a storage without a backend, is a TypeError.",
     ["inputs", "configurations"],
     "backends of contiguous, padded and device storages; arrays of up to four dimensions with symbolic shapes, origins and extents",
     "gt4py is not installed, so every test of storages is skipped.",
     [U + "quantity.py", U + "initialization/allocator.py", U + "communicator.py"],
     [("Quantity._initialize_storage", U + "quantity.py"), ("StorageNumpy", U + "initialization/allocator.py")])

prop("C34", "Device arrays are handled as host arrays are, and stay on the device",
     "With data in device (GPU) memory, views, transposition, rotation, corner filling, nudging, allocation, transfer buffers, scatter, gather, state transfer and halo updates give the "
     "results they give with host arrays, the quantities they make hold device arrays, and no step converts between device and host other than by the device library's own "
     "functions. Having the device library does not change what happens to host arrays.",
     ["inputs", "configurations"],
     "the inputs of the properties of each of these operations, for a choice of their configurations, with every array a device array",
     "cupy is not installed, so every test with device arrays is skipped.",
     [U + "communicator.py", U + "quantity.py", U + "utils.py", U + "buffer.py"],
     [("assign_array", U + "utils.py"), ("Communicator._Isend", U + "communicator.py"), ("QuantityMetadata.np", U + "quantity.py")])

prop("C35", "Turning or flipping a tile moves its ranks as it moves its cells",
     "Ranks of a tile are numbered row by row from its lower left corner. Flipping the tile left to right or upside down, and on a square layout transposing it or turning it clockwise, "
     "takes each rank to the rank whose place on the tile its own place moves to: flips and transposes undo themselves and four quarter turns are no move. A number of "
     "quarter turns above one may be refused with NotImplementedError, but is never answered wrongly.",
     ["inputs", "configurations"], "every rank of single layouts up to 24 x 24, in ranks that stay symbolic",
     "No test calls these functions.",
     [U + "partitioner.py"], [("transform_subtile_rank", U + "partitioner.py"), ("rotate_subtile_rank", U + "partitioner.py"),
                              ("TilePartitioner.rotate_rank", U + "partitioner.py"), ("TilePartitioner.fliplr_rank", U + "partitioner.py")])

prop("C36", "Each rank's restart files have a name of their own",
     "The suffix of a rank's restart files is .tileN.nc, N its tile counted from 1, when there are six ranks, and .tileN.nc.KKKK otherwise, KKKK its place on the tile counted from 0 in at "
     "least four digits, so no two ranks share one. A number of ranks that is not a multiple of six is a ValueError, for this suffix and for the tile of a rank.",
     ["inputs"], "any number of ranks up to six million, any tile, places on the tile up to 24 and a choice of larger ones",
     "Tests sample seven ranks, none with a place of more than three digits.",
     [U + "_legacy_restart.py", U + "partitioner.py"],
     [("get_rank_suffix", U + "_legacy_restart.py"), ("get_tile_index", U + "partitioner.py"), ("get_tile_number", U + "partitioner.py")])

prop("C37", "Optional libraries are needed only by what uses them",
     "Without xarray and zarr the package imports, and decomposition, views, rotation, corner filling, nudging, allocation, buffers, scatter, gather, state transfer, halo updates, units and "
     "dates work as they do with them; without zarr alone so do state files and restart directories. What needs an absent library raises an ImportError naming it each time it is used, "
     "and leaves states and files as they were.",
     ["configurations", "inputs"], "xarray, zarr or both absent, each with the inputs of the properties of these operations, for a choice of their configurations",
     "The tests run with every optional library installed, or skip what needs one.",
     [U + "_optional_imports.py", U + "_xarray.py", U + "zarr_monitor.py", U + "io.py"],
     [("RaiseWhenAccessed", U + "_optional_imports.py"), ("to_dataset", U + "_xarray.py"), ("ZarrMonitor.__init__", U + "zarr_monitor.py")])

prop("C38", "A communicator's timer watches its updates and does not meddle",
     "Halo updates, vector halo updates, interface synchronisation and gathers give the same results and finish whether the communicator's timer is enabled, disabled, a NullTimer, used by "
     "the caller for clocks around the calls, or turned on and off between start and wait. No clock of its own runs when none of its calls is running, also after a refused update or while "
     "updates are outstanding, so the timer can be disabled and reset between calls; a disabled timer records nothing; packing, unpacking, Isend and Recv are each recorded, time spent in "
     "messages as Isend and Recv and none of it as packing or unpacking; timers of other communicators are not touched.",
     ["inputs", "configurations"], "sizes, halo widths and paddings, the times messages take, the timers and the mix of outstanding updates",
     "The tests look at the timer of one update with a mock; they do not turn it off, nest it or look at it between start and wait.",
     [U + "communicator.py", U + "_timing.py", U + "buffer.py"],
     [("CubedSphereCommunicator._Isend", U + "communicator.py"), ("recv_buffer", U + "buffer.py"), ("Timer", U + "_timing.py")])

prop("C39", "Copies of quantities stand on their own",
     "A deep copy of a quantity, and one restored from its pickle (as when it is sent to another process), has the same dimensions, units, origin, extent, element type and values, halo "
     "included, in memory of its own: what is written to one is not seen in the other. The copy is whole: what is written through its view, corner views, data or transposes shows in all "
     "of them, whatever was looked at before copying; a quantity named twice in a copied state stays one quantity.",
     ["inputs", "histories"], "shapes, origins, extents and values, ways of copying and of looking before, which of the two is written and how",
     "The tests copy quantities to compare with later; they do not ask whether a copy's views and data remain one, nor pickle.",
     [U + "quantity.py"],
     [("Quantity", U + "quantity.py"), ("QuantityMetadata", U + "quantity.py"), ("BoundedArrayView", U + "quantity.py")])

NOT_APPLICABLE = {}
