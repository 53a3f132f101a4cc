SAN = ' Every case also runs under AddressSanitizer. '
LIM = 'Search, not proof: it establishes presence of violations only, over the generated cases counted in the evidence file; trusts the reference model in the harness and the compiler.'

prop('C01', 'Every field class is a faithful voxel store',
 'For any extents and data window (including negative origins, padding and windows smaller or larger than the extents), any voxel type and any history of resizing, clearing and writing, reading a voxel of a dense, sparse, staggered (MAC) or empty field returns exactly the value last written there, or else the last clear value. Writing one voxel or face never changes another one or another field, and the size queries always describe the last requested definition. This holds for every block size a sparse field can be given. A size that can not be held is refused by an exception.',
 ['inputs', 'histories', 'configurations'], 'every field class, voxel type, extents/data window pair, block order and every sequence of setSize, clear and element writes through any write path',
 'Unit tests write a few fixed boxes at mostly zero origins and one or two block sizes; addressing errors show only for particular residues of window origin, size and block order and particular write histories.',
 ['export/DenseField.h', 'export/SparseField.h', 'export/MACField.h', 'export/EmptyField.h', 'export/Field.h'],
 [('dense addressing', 'DenseField::lvalue/fastValue/sizeChanged'), ('block addressing', 'SparseField::getBlockCoord/getVoxelInBlock/applyDataWindowOffset/setupBlocks'), ('face arrays', 'MACField::sizeChanged/getU/getV/getW')],
 'Random stateful histories on all six voxel types against a plain array model.' + SAN + LIM)

prop('C02', 'Iterators visit exactly the requested voxels, in order, with the right values',
 'For any field and any requested sub-box, a traversal visits every voxel of the box exactly once, in x-fastest order, reporting correct coordinates and the current value, and what is written through the iterator lands at the reported voxel and nowhere else. The end of a traversal of an empty box equals its beginning. Reading through a traversal never allocates or changes anything, and the block and face (u, v, w) traversals cover exactly the blocks and faces of the window or box.',
 ['inputs', 'configurations'], 'every field class, definition, block order, allocation pattern and sub-box of the data window',
 'The tests iterate over a handful of fixed boxes; stepping over row, slice and block edges depends on the residues of the sub-box and window against the block size.',
 ['export/Field.h', 'export/DenseField.h', 'export/SparseField.h', 'export/MACField.h'],
 [('stepping', 'const_iterator/iterator operator++ in each field class'), ('begin/end', 'cbegin/cend/begin/end(subset)'), ('blocks', 'SparseField::block_iterator')],
 'Walks over generated fields and boxes against a triple loop over the model.' + SAN + LIM)

prop('C03', 'Sparse blocks are invisible in the voxel values',
 'Whatever blocks of a sparse field are allocated, emptied, released or given an empty value, and whatever block size it uses, each voxel reads as the value the history of operations gives it: an unallocated block reads as its empty value everywhere, and allocating it through a write keeps every other voxel at that value. Releasing blocks that a predicate accepts never changes a voxel except as that predicate states (uniform value, or band collapse), and only blocks accepted are released. A write to an unallocated block allocates that block only.',
 ['inputs', 'histories', 'configurations'], 'every block order, data window, and history of voxel writes, block fills, empty-value changes and block releases',
 'Tests release blocks in one or two fixed scenes; partial edge blocks, windows off the origin and repeated release/reallocate histories are not reached.',
 ['export/SparseField.h', 'src/SparseField.cpp'],
 [('allocation on write', 'SparseField::fastLValue'), ('release', 'SparseField::releaseBlocks, CheckAllEqual, CheckMaxAbs'), ('empty values', 'setBlockEmptyValue/getBlockEmptyValue/blockIsAllocated')],
 'Histories against a block and voxel model, plus agreement between block orders and the dense class.' + SAN + LIM)

prop('C04', 'A copy equals its source and is independent of it',
 'Copy construction, assignment and cloning of any field, and conversion copies between field classes and voxel types, give a field with the same extents, data window, voxel values, mapping, name, attribute and metadata as the source (voxel values rounded to the target type for conversions; voxels and definition for conversions). From then on changing either one (voxels, size, mapping, metadata) never shows in the other. Metadata keeps the last value set per type and key, and a missing key gives the caller\'s default.',
 ['inputs', 'histories'], 'every field class and voxel type, definition, content, mapping and metadata set, and every later change to either side',
 'The tests copy one small field per class and compare a few members; sharing shows only when a specific member is changed after a specific kind of copy.',
 ['export/Field.h', 'export/DenseField.h', 'export/SparseField.h', 'export/MACField.h', 'export/FieldMetadata.h', 'export/MACFieldUtil.h'],
 [('copying', 'copy constructors, operator=, clone()'), ('conversion', 'ResizableField::copyFrom/matchDefinition, MACField::copyMAC'), ('metadata', 'FieldMetadata')],
 'Generated sources copied every way, compared, then mutated on either side and compared again; metadata against per-type maps.' + SAN + LIM)

prop('C05', 'Mappings are consistent, invertible transforms and compare by meaning',
 'For null, matrix and frustum mappings over any extents, local (0,0,0) and (1,1,1) are the outer corners of the extents in voxel space, the world, local and voxel transforms agree with the given matrices, and transforming a point there and back returns it; voxel sizes are the world distances between neighbouring voxels. A field keeps its own copy of its mapping in step with its extents. Two mappings compare as identical exactly when they place points identically (within the tolerance given), and bounds transformed through a mapping contain the transformed points of an affine mapping\'s box.',
 ['inputs', 'configurations', 'histories'], 'every mapping class, affine matrix or camera, depth distribution, extents (any origin) and order of configuration calls',
 'Tests use a few matrices at origin-zero extents; offsets, shear, mirroring, uniform depth and re-configuration orders are not covered.',
 ['export/FieldMapping.h', 'src/FieldMapping.cpp', 'export/Field.h'],
 [('local/voxel', 'FieldMapping::localToVoxel/voxelToLocal/setExtents'), ('matrices', 'MatrixFieldMapping::updateTransform'), ('frustum', 'FrustumFieldMapping::setTransforms/localToWorld/worldToLocal/computeVoxelSize'), ('comparison', 'isIdentical, checkMatricesIdentical')],
 'Points through every transform against an independent evaluation of the matrices, pairs of perturbed mappings for comparison.' + SAN + LIM + ' Tolerances 1e-8 (forward) and 1e-6 (inverse), relative.')

prop('C06', 'Time-varying transforms interpolate their samples',
 'A mapping with several time samples places points at any time by linearly interpolating the sampled matrices (and, for cameras, the near and far depths) between the two surrounding samples, holding the first and last sample outside their range; calls without a time mean time zero. The forward and inverse transforms at one time are each other\'s inverse. The order in which samples are added does not matter, and setting a sample at an existing time replaces it.',
 ['inputs', 'histories'], 'every set of sample times and values, insertion order with repetitions, query times inside, outside and at the samples',
 'The tests sample one curve and one moving matrix at a few times.',
 ['export/Curve.h', 'export/FieldMapping.h', 'src/FieldMapping.cpp'],
 [('samples', 'Curve::addSample/linear'), ('matrices over time', 'MatrixFieldMapping::worldToVoxel(..., time) and relatives'), ('frustum over time', 'FrustumFieldMapping::localToWorld(..., time)')],
 'Curves against an ordered map, transforms against interpolated matrices.' + SAN + LIM)

prop('C07', 'Linear lookups are trilinear interpolation with edge clamping',
 'For any field, a lookup at a continuous voxel position returns the trilinear blend of the eight surrounding voxel centres, where voxels outside the data window repeat the nearest voxel inside it; at a voxel centre it returns that voxel. Every linear interpolator (generic, dense, sparse, and the lookup of a procedural field over its own extents) gives this same value for the same contents, whatever the field class, block order or data window. Constant and linear contents are reproduced and results stay within the range of the voxels used.',
 ['inputs', 'configurations'], 'every field class, definition, contents and sample position inside, outside, on the edges and between voxels',
 'The tests sample constant fields and a few positions in zero-origin windows; wrong neighbours show for particular windows and positions only.',
 ['export/FieldInterp.h', 'export/DenseField.h', 'export/SparseField.h', 'export/ProceduralField.h'],
 [('generic', 'LinearFieldInterp::sample'), ('dense', 'LinearGenericFieldInterp<DenseField>, FastLinearInterp'), ('sparse', 'SparseField LinearInterp'), ('procedural', 'ProceduralFieldLookup::value')],
 'Positions against an independent trilinear formula, every interpolator against every other.' + SAN + LIM)

prop('C08', 'Cubic lookups are clamped monotonic cubic interpolation, alike for every class',
 'For any field, a cubic lookup equals the separable monotonic cubic interpolation of the 4x4x4 surrounding voxels with neighbours clamped to the data window, whichever cubic interpolator and field class is used. It returns the voxel at a voxel centre, reproduces constants, and never leaves the range of the voxels it interpolates between.',
 ['inputs', 'configurations'], 'every field class, definition, contents and sample position',
 'The tests sample a constant or a single ramp in zero-origin windows.',
 ['export/FieldInterp.h', 'src/FieldInterp.cpp'],
 [('generic', 'CubicFieldInterp::sample'), ('fast', 'CubicGenericFieldInterp::sample'), ('1D kernel', 'monotonicCubicInterpolant')],
 'Positions against an independent evaluation of the kernel, and against each other.' + SAN + LIM)

prop('C09', 'Staggered fields interpolate faces at face positions and convert faithfully',
 'For any staggered (MAC) field, a linear or cubic lookup interpolates each component among its own face values at their face positions (half a voxel off along that axis), clamped to the faces of the data window, and the value at a voxel centre is the average of its two faces. Converting to and from a cell-centred field gives the face averages in the documented space (rotated by the mapping where asked), and a divergence or difference over the grid agrees with the face values.',
 ['inputs', 'configurations'], 'every window, contents, mapping rotation and sample position',
 'The tests use one small zero-origin MAC field and no mapping.',
 ['export/MACField.h', 'export/MACFieldUtil.h', 'export/FieldInterp.h'],
 [('linear', 'LinearMACFieldInterp::sample'), ('cubic', 'CubicMACFieldInterp::sample'), ('conversion', 'convertMACToCellCentered/convertCellCenteredToMAC')],
 'Positions against per-face interpolation, conversions against an explicit loop.' + SAN + LIM)

prop('C10', 'Resampling filters every voxel as its filter defines and keeps the field\'s place',
 'Resampling a field that starts at the origin to any resolution gives each voxel the normalised sum of the source voxels weighted by the filter (or their minimum or maximum), axis by axis, the filter spanning target voxels when shrinking and source voxels when enlarging. The result does not depend on the field class or on what the target held before; constants stay constant and positive filters stay in range. The result covers the same place in space with the same name, attribute, mapping and metadata, and the source is not changed.',
 ['inputs', 'configurations'], 'every source resolution and contents, target resolution, filter and width, field class and previous target contents',
 'The tests resample one or two fields by a factor of two with one filter; support boundaries, uneven ratios, mixed up/down axes and leftover contents are not reached.',
 ['export/Resample.h', 'src/Resample.cpp'],
 [('passes', 'detail::separable/separableResample'), ('support', 'detail::srcSupportBBox/getDist'), ('filters', 'BoxFilter .. MitchellFilter::eval')],
 'Every voxel against a separable evaluation in double; voxels whose value hangs on rounding at a filter edge are left out and counted.' + SAN + LIM)

prop('C11', 'MIP pyramids halve, cover and align with their base field',
 'Each level of a MIP pyramid built from a field is the filtered halving of the level below it (respecting the MIP offset), covers all of the base field, and lies at the same place in space as the base at every time; level 0 is the base, and name, attribute and metadata carry over. The result is the same for dense and sparse fields, any block size and any number of threads. Min and max pyramids bound every voxel they cover, and a field the construction does not support is refused rather than read wrongly.',
 ['inputs', 'configurations', 'schedules'], 'every base resolution, contents, block order, filter, offset, minimum size, moving mapping, resolution multiplier and thread count',
 'The tests build pyramids of one or two power-of-two fields and mostly check that it works at all.',
 ['export/MIPUtil.h', 'src/MIPUtil.cpp', 'export/MinMaxUtil.h', 'export/MIPField.h'],
 [('filtering', 'detail::MIPSeparableThreadOp, mipSeparable, mipResample, checkInputEmpty'), ('levels', 'makeMIP, detail::mipResolution'), ('alignment', 'detail::adjustedMIPFieldMapping'), ('bounds', 'makeMinMax')],
 'Levels against a halving in double; thread counts compared bitwise (each failing case is rerun up to 60 times while shrinking, since schedules vary).' + SAN + LIM)

prop('C12', 'MIP lookups blend the right levels and lazy loading is invisible',
 'A MIP field returns, for each level, the voxels of that level, and a lookup with a spot size linearly blends the two levels whose voxel sizes bracket it (the finest below, the coarsest above), each sampled at the matching place. Lazily loaded fields behave exactly like fully loaded ones under any sequence or concurrency of reads, copies, assignments and mapping changes, load a level only when first needed and once, and report a level that cannot be loaded by an exception. Invalid level lists are refused and leave a usable object.',
 ['inputs', 'histories', 'schedules'], 'every pyramid, offset, mapping, spot size, position, read/copy/assign history and interleaving of readers',
 'The tests read one pyramid from a file and compare a few voxels; blends, offsets, partially loaded copies and races are not covered.',
 ['export/MIPField.h', 'export/MIPBase.h', 'export/MIPInterp.h', 'src/MIPUtil.cpp'],
 [('lookups', 'MIPLinearInterp::sample/interpInfo, MIPField::getVsMIPCoord'), ('lazy loading', 'MIPField::loadLevelFromDisk/setupLazyLoad/init'), ('validation', 'MIPField::sanityChecks')],
 'Histories over two pyramids against plain arrays with counting load actions; readers on several threads.' + SAN + LIM)

prop('C13', 'What is written to an Ogawa file is what is read back',
 'A dense, sparse or MIP field of any voxel type written to an Ogawa file reads back in any later session bit for bit: every voxel (also outside the extents), block allocation and empty value, level and offset, and the window and order it was made with, asked for by its own type only. Whatever the format cannot hold is refused, never reported as written, and a file written again holds the new contents only. The container itself returns every group, attribute and data set element written to it, of every type and size.',
 ['inputs', 'histories'], 'every field class, type, window, block layout and contents, layer set, order of reads and repetition, group tree',
 'The tests write one or two fields of fixed size and compare a few voxels; odd blocks, offset windows, NaN payloads, empty layers and rewritten files are not covered.',
 ['src/DenseFieldIO.cpp', 'src/SparseFieldIO.cpp', 'include/MIPFieldIO.h', 'src/Field3DFile.cpp', 'export/OgIO.h', 'src/Ogawa'],
 [('dense', 'DenseFieldIO::write/read (OgOGroup, OgIGroup)'), ('sparse', 'SparseFieldIO::writeInternal/readData, ThreadingState'), ('MIP', 'MIPFieldIO'), ('container', 'OgOGroup/OgIGroup, OGroup/OData')],
 'Bitwise comparison against the generated contents; files live in a scratch directory.' + SAN + LIM)

prop('C14', 'What is written to an HDF5 file is what is read back',
 'A dense, sparse, staggered or MIP field of any voxel type written to an HDF5 file reads back in any later session bit for bit: every voxel and face (also outside the extents), block allocation and empty value, level and offset, and the window and order it was made with, asked for by its own type only; a file written again holds the new contents only. Attributes and data sets written by the HDF5 helpers read back exactly, and asking for a missing one or one of another type or size is refused by an exception.',
 ['inputs', 'histories'], 'every field class, type, window down to one voxel, block layout and contents, layer set, order of reads and repetition',
 'The tests write one or two fields of fixed size and compare a few voxels; single voxels, odd blocks, NaN payloads and rewritten files are not covered.',
 ['src/DenseFieldIO.cpp', 'src/SparseFieldIO.cpp', 'include/MACFieldIO.h', 'include/MIPFieldIO.h', 'src/Field3DFileHDF5.cpp', 'src/Hdf5Util.cpp'],
 [('dense', 'DenseFieldIO::writeInternal/readData (hid_t)'), ('sparse', 'SparseFieldIO::writeInternal/readData (hid_t)'), ('staggered', 'MACFieldIO::writeData/readData'), ('helpers', 'Hdf5Util::writeAttribute/readAttribute')],
 'Bitwise comparison against the generated contents; files live in a scratch directory.' + SAN + LIM)

prop('C15', 'Mappings, names and metadata survive a file',
 'A layer read from a file of either encoding has the name, attribute and mapping it was written with: same class, same time samples and z distribution, and bitwise the same transforms at every point and time. The metadata of every layer and of the file, of all five types, read back exactly, with nothing added or lost, whatever their names and lengths; what an encoding can not hold is refused.',
 ['inputs', 'configurations'], 'every mapping class, number and time of samples, metadata set, field class, encoding and order of reads',
 'The tests write a matrix mapping with a few samples and one metadata item of each type; moving frustums, extreme values and several layers are not covered.',
 ['src/FieldMappingIO.cpp', 'src/Field3DFile.cpp', 'src/Field3DFileHDF5.cpp', 'export/FieldMetadata.h'],
 [('matrix', 'MatrixFieldMappingIO::read/write'), ('frustum', 'FrustumFieldMappingIO::read/write'), ('metadata', 'readMetadata/writeMetadata, writeGlobalMetadata')],
 'Bitwise comparison with what was written.' + SAN + LIM)

prop('C16', 'A file holds exactly the partitions, layers and proxies written to it',
 'Every layer written to a file is found again under its partition and layer name, by every query, read and proxy call, exactly once, with the class, size, mapping and metadata of that layer, whichever names, mappings and types the other layers have; a name that could not be found again is refused. The listings hold every name that was written, once, and no other. A file object used for several files in turn, through failed opens, refused creates and closes, always shows exactly the file it has open, and never replaces a file it was told to keep.',
 ['inputs', 'histories'], 'every set of layers, names, mappings and encodings, and every history of file objects',
 'The tests write a few well-named layers into a fresh file with fresh objects; name clashes between numbered partitions, repeated names and reused objects are not covered.',
 ['src/Field3DFile.cpp', 'src/Field3DFileHDF5.cpp', 'export/Field3DFile.h', 'export/Field3DFileHDF5.h'],
 [('numbering', 'Field3DFileBase::intPartitionName/makeIntPartitionName/removeUniqueId'), ('listing', 'getPartitionNames/getScalarLayerNames/getVectorLayerNames'), ('reading', 'readLayers/readScalarLayers/readVectorLayers/readProxyLayer'), ('objects', 'create/open/close/closeInternal')],
 'Sets of unique ids carried by voxels and metadata. Empty partition names are left out of proxies, which take them as "all".' + SAN + LIM)

prop('C17', 'Sparse fields read under a memory limit behave exactly like fully read ones',
 'A sparse layer read with the memory limit on gives the same voxels by value, iterator and sampler, the same blocks and the same file when written again as the layer read in full, for every limit and any history of reads, copies, assignments, changes, flushes and limit changes. A referenced block stays where it is until it is released; apart from those, loaded blocks stay within the limit, and no history hangs. When its fields are gone nothing stays loaded or open.',
 ['inputs', 'histories', 'configurations'], 'every layer, limit, encoding, and history of reads, living iterators, copies, changes and flushes',
 'The tests read one file with a generous limit; eviction while blocks are referenced, copied iterators, replaced blocks, offset windows and rewriting are not covered.',
 ['export/SparseField.h', 'export/SparseFile.h', 'src/SparseFile.cpp', 'src/SparseFieldIO.cpp', 'include/OgSparseDataReader.h', 'include/SparseDataReader.h'],
 [('cache', 'SparseFileManager::activateBlock/deallocateBlocks/flushCache'), ('references', 'SparseFile::Reference::loadBlock/openFile/closeFile'), ('iterators', 'SparseField::const_iterator, SparseBlock references'), ('ownership', 'SparseField::copySparseField/removeReference/releaseBlocks')],
 'Each operation is done on the dynamic field and on the same field in memory; the bytes held are checked against the limit after every load.' + SAN + LIM)

prop('C18', 'Fields and files may be used by several threads at once',
 'Threads that share fields, dynamically read ones included, or that read and write through file objects of their own, see exactly the contents they would see alone, under any interleaving of reads, iterators, samplers, copies, cache evictions, flushes, limit changes and statistics, without deadlock. An object stays alive until its last reference is dropped by whichever thread and is then destroyed once; looking up a layer another thread is letting go of gives a whole field. Nothing stays loaded when all fields are gone.',
 ['inputs', 'histories', 'schedules'], 'every interleaving of threads using shared fields and files of both encodings under any memory limit',
 'The tests use one thread, except for MIP construction.',
 ['export/RefCount.h', 'export/FieldCache.h', 'src/FieldCache.cpp', 'export/SparseFile.h', 'src/SparseFile.cpp', 'src/Field3DFile.cpp', 'src/Field3DFileHDF5.cpp'],
 [('references', 'RefBase::ref/unref/refIfAlive, intrusive_ptr_release'), ('cache', 'FieldCache::getCachedField/lockEntry'), ('blocks', 'SparseFileManager::activateBlock/deallocateBlock/removeFieldFromCache, FileReferences'), ('HDF5', 'g_hdf5Mutex')],
 'Locks, reads and decompression are interposed to give up the processor at generated moments. A failing schedule is confirmed by up to 60 reruns of its case; schedules themselves are not enumerated.' + SAN + LIM)

prop('C19', 'The number of I/O threads changes nothing but the time taken',
 'Whatever the number of I/O threads, zero and more than there are blocks included, a field written to an Ogawa file gives the same file, byte for byte, and reads back as the contents written, also when the number changes between opening and reading. Reading and writing always finish.',
 ['inputs', 'configurations', 'schedules'], 'every field, pattern of allocated blocks, thread count and interleaving of the I/O threads',
 'The tests use the default of one thread.',
 ['src/SparseFieldIO.cpp', 'src/InitIO.cpp', 'src/IStreams.cpp', 'src/OData.cpp'],
 [('writing', 'WriteBlockOp, ThreadingState'), ('reading', 'ReadBlockOp, ReadThreadingState, IStreams::read'), ('count', 'setNumIOThreads/numIOThreads')],
 'Compared with the file written by one thread. Locks and (de)compression are interposed to give up the processor at generated moments; interleavings that need a thread to lose the processor between two plain memory accesses are only met by chance.' + SAN + LIM)

prop('C20', 'Damaged and unfinished files are refused, never misread into memory',
 'Opening, listing, reading or sampling a file of either encoding whose structure was truncated, corrupted or edited, in memory or block by block on demand, ends with an answer, a failure or a C++ exception: never with a crash, a hang, memory read or written outside what was allocated, or uninitialized voxels returned. open() itself returns false and throws nothing; a truncated file, and a sparse block or chunk whose compressed data no longer uncompresses, is refused, and what is still returned is what was written. Afterwards the same process, and the same file object, reads undamaged files as before.',
 ['inputs', 'crash points', 'histories'], 'every damaged, truncated or foreign file, every point at which writing a file can have stopped, and every way of reading it',
 'The tests only open files that were written completely. Files come from other hosts, older versions and renders that were killed.',
 ['src/IStreams.cpp', 'src/IGroup.cpp', 'src/IData.cpp', 'src/IArchive.cpp', 'src/OgIGroup.cpp', 'src/OgUtil.cpp', 'include/OgIDataset.h', 'src/SparseFieldIO.cpp', 'src/DenseFieldIO.cpp', 'include/MACFieldIO.h', 'src/Field3DFile.cpp', 'src/Field3DFileHDF5.cpp', 'src/Hdf5Util.cpp', 'export/SparseDataReader.h', 'export/OgSparseDataReader.h'],
 [('structure checks of Ogawa files', 'IStreams::read, IGroup, IData'), ('checks of fields against their data sets', 'SparseFieldIO readData, DenseFieldIO readData, MACFieldIO'), ('attributes and data sets of unexpected type', 'readAttribute, OgIAttribute'), ('damaged blocks', 'ReadThread, OgSparseDataReader::readBlock')],
 'Generated files are mutated through a parser of the Ogawa tree in the harness, byte by byte, by cutting, in their compressed payloads, and through the HDF5 library. Changes to voxel data that is stored without compression can not be told from other voxels and are not counted as damage; bytes of HDF5 files that only libhdf5 interprets are left alone.' + SAN + LIM)

prop('C21', 'A write that fails is reported, and an unfinished file is refused or right',
 'When the disk is full or fails at any write, when a block can not be compressed, or when a call can not succeed (no open file, a null field, a class the encoding can not hold, an impossible file name), some call of the writer, at the latest close(), reports it; a file for which every call reported success reads back complete. No such failure ends or hangs the program, and the same object then writes complete files. A file whose writing stopped anywhere is refused, or each layer read from it is as it was written, and what a call refused to write is not listed.',
 ['crash points', 'faults', 'inputs', 'histories'], 'every write at which storing can fail or stop, once or for good, whole or torn, every block that can fail to compress, and every mix of possible and impossible calls, in both encodings and with any number of I/O threads',
 'No test makes a write fail. Caches that fill a disk and killed jobs are daily events, and a file believed complete is used or its source deleted.',
 ['export/Field3DFile.h', 'src/Field3DFile.cpp', 'export/Field3DFileHDF5.h', 'src/Field3DFileHDF5.cpp', 'src/OStream.cpp', 'src/OArchive.cpp', 'src/OGroup.cpp', 'src/SparseFieldIO.cpp', 'src/DenseFieldIO.cpp', 'include/MACFieldIO.h', 'include/MIPFieldIO.h', 'export/Hdf5Util.h'],
 [('sticky stream errors and the frozen byte', 'OStream::isGood/finish'), ('closing', 'Field3DOutputFile::cleanup, Field3DFileHDF5Base::closeInternal'), ('failed layers', 'Field3DOutputFile::writeLayer, Field3DOutputFileHDF5::writeLayer'), ('failed blocks', 'WriteBlockOp in SparseFieldIO.cpp')],
 'write, writev, pwrite and compress2 are replaced inside the test process by functions that fail on request and otherwise do what the originals do; nothing outside the scratch directory is affected. What the operating system loses after accepting it (no fsync) is out of scope.' + SAN + LIM)

prop('C22', 'The command-line tools do to files what the library does',
 'f3dmerge puts exactly the layers its patterns select from all its inputs into one file of either encoding, with their voxels, types, names, mappings and metadata; f3dmakemip writes for each selected field the pyramid, and on request the min/max pyramids, that the library makes of it; f3dsample writes the field its options describe; f3dinfo prints the fields, mappings and metadata the files hold. A tool that could not read an input or write all of its output says so by its exit status, and no tool crashes.',
 ['inputs', 'configurations'], 'every set of input files, patterns and options, for each tool',
 'The tools have no tests.',
 ['apps/f3dmerge/main.cpp', 'apps/f3dmakemip/main.cpp', 'apps/f3dsample/main.cpp', 'apps/f3dinfo/main.cpp'],
 [('merging', 'f3dmerge writeOutput/writeField'), ('pyramids', 'f3dmakemip makeMIP/writeField'), ('samples', 'f3dsample createField/setCommon'), ('listing', 'f3dinfo printFileInfo/printFieldInfo/matchString')],
 'The tools are built with sanitizers and run as processes on generated files in a scratch directory. The fill option of f3dsample, which it does not implement, is left out.' + SAN + LIM)

prop('C23', 'Name patterns and file sequences mean what they say',
 'A name and attribute match a list of patterns exactly when some pattern that is not an exclusion matches and no exclusion does, whatever the order, with wildcards and bracket expressions, a name part or none, as a list or as one string; an empty list matches as the flags say. Splitting gives the non-empty pieces between the separators, in order. A file sequence gives exactly the files of its frame range, in order, or the one existing file it names, and nothing for a string that is neither.',
 ['inputs'], 'every name, attribute, pattern list and sequence string',
 'The tests match a few names; no test uses a file sequence.',
 ['export/PatternMatch.h', 'src/PatternMatch.cpp', 'export/FileSequence.h', 'src/FileSequence.cpp'],
 [('matching', 'match(), split() in PatternMatch.cpp'), ('sequences', 'FileSequence::FileSequence/filename/size')],
 'Against an independent matcher and expander.' + SAN + LIM)

prop('C24', 'A group of fields answers as its fields do together',
 'Sampling a group gives the sum of what its member fields give at a point, counting only the fields the point is inside of, for points one at a time or many at once, plain and filtered, under object transforms, value remapping and bounds optimization, whatever mixture of types and mappings the group holds and in how many steps it was set up. The range reported for a world-space box contains every voxel of the box and never exceeds the range of the fields, with or without min/max pyramids; rays are cut into the intervals that are inside the fields. Loading a group from files gives the same answers as the fields written.',
 ['inputs', 'histories'], 'every group of fields, transform, point, box and ray, and every order of set-up steps',
 'No test uses a field group.',
 ['export/FieldGroup.h', 'export/FieldSampler.h', 'export/FieldWrapper.h', 'export/MIPUtil.h', 'src/MIPUtil.cpp'],
 [('sampling', 'FieldGroup::sample/sampleMIP/sampleMultiple, FieldSampler'), ('ranges', 'FieldGroup::getMinMax/makeMinMax, FieldSampler::getMinMaxPrefilt'), ('rays', 'FieldGroup::getIntersections, FieldWrapper'), ('loading', 'FieldGroup::load, readFields')],
 'The answers of the single fields, whose own sampling is decided by C07 and C12, are added up. Points behind the camera of a frustum are left out.' + SAN + LIM)

prop('C25', 'Types, names and coordinate helpers agree with what they describe',
 'A library cast succeeds exactly when the object is of the class asked for, for every pair of classes and voxel types and classes derived by users; class names and type strings tell the class, and clones keep it. The class factory gives what was registered first under a name, and nothing else. Voxel indices, continuous coordinates, boxes and grid coordinate systems convert into one another as documented over the whole range of numbers, and grids made for a voxel size keep their voxels in place as the bounds grow.',
 ['inputs', 'histories'], 'every pair of classes, history of registrations, index, coordinate, box and voxel size',
 'The tests cast a few fields and convert none of the boxes.',
 ['export/RefCount.h', 'export/Field.h', 'export/Traits.h', 'export/ClassFactory.h', 'src/ClassFactory.cpp', 'export/CoordSys.h', 'export/Types.h'],
 [('casts', 'field_dynamic_cast(), matchRTTI/checkRTTI'), ('factory', 'ClassFactory::register*/create*'), ('helpers', 'contToDisc/discToCont/continuousBounds/discreteBounds/clipBounds/indexToCoord/clampForType'), ('grids', 'coordinateSystem(bounds, voxelSize, extents)')],
 'Casts are compared with dynamic_cast, which works inside one binary.' + SAN + LIM)
