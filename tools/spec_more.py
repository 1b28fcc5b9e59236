prop('N01', 'Conservative regridding conserves the global integral',
     'For any source field and any pair of mosaics, the area integral of a first- or second-order conservatively regridded field '
     'equals that of the source up to rounding.', ['inputs'], 'all fields and grid pairs', 'tests compare a handful of fields',
     ['src/fre-grid/conserve_interp.c'], [('exchange-grid area weights', 'conserve_interp.c')],
     na='Quantifies over floating-point sums of run-time areas; no static argument in reach bounds them.')
prop('N02', 'Exchange-grid cells partition each parent cell',
     'The exchange cells of every parent cell are disjoint and their areas sum to the part of the parent cell that is covered.',
     ['inputs'], 'all pairs of grids', 'tests use a few grids', ['lib/libfrencutils/create_xgrid.c'],
     [('polygon clipping', 'create_xgrid.c')],
     na='Geometric property of clipped spherical polygons in floating point; not visible in the shape of the code.')
prop('N03', 'Scatter followed by combine restores the original file',
     'For every file and every layout, combining the pieces mppncscatter wrote yields the values and metadata of the original.',
     ['inputs', 'histories'], 'all files and layouts', 'tests use a few files', ['src/mpp-ncscatter', 'src/mpp-nccombine'],
     [('decomposition extents', 'mpp_compute_extent'), ('hyperslab arithmetic', 'put_var, process_vars')],
     na='Round-trip equality over run-time index arithmetic and file contents.')
prop('N04', 'Time averages weight every interval by its length',
     'Averages over time equal the interval-weighted mean of the samples.', ['inputs'], 'all time axes', 'few samples',
     ['src/timeavg/time_average.f90'], [('weights', 'time_average.f90')],
     na='Numerical result over run-time time axes.')
prop('N05', 'Parallel runs produce the same file as serial runs',
     'The parallel version of a tool writes bit-identical output for every number of processes.', ['schedules', 'configurations'],
     'all process counts', 'one or two counts are tested', ['src/fre-grid', 'src/make-coupler-mosaic'],
     [('domain decomposition and gather', 'mpp_domain.c')],
     na='Equality of floating-point results across decompositions is a run-time quantity.')
prop('N06', 'Generated grids satisfy their geometric specification',
     'Every generated horizontal grid has consistent areas, lengths and angles.', ['inputs'], 'all grid parameters', 'few grids',
     ['src/make-hgrid'], [('grid formulas', 'create_*_grid.c')], na='Floating-point geometry.')
