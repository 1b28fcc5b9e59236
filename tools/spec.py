#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
N = []      # not applicable


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    (N if na else P).append((d, technique, note, na))


AI = 'interprocedural abstract interpretation (interval/non-zero/pointer domain) of the LLVM SSA form with abstract fault injection'

prop('C01', 'mppnccombine: any failed operation ends in a non-zero exit status',
     'If any netCDF operation on an input or the output file, or a memory allocation, fails while mppnccombine runs, or it '
     'reports an error, the exit status is not zero, however many operations fail and in whichever phase. Absence of the '
     'optional decomposition attributes is not a failure.',
     ['fault_sequences', 'inputs'], 'every operation that can fail, at every point of every run, in every combination',
     'the tests combine good files; none makes a read, write, define, sync or close fail, let alone several hundred of them',
     ['src/mpp-nccombine/mppnccombine.c'],
     [('status tests and error counters', 'main, process_file, process_vars, flush_decomp')], AI,
     'Sound for the assumed failure values up to the stated modelling (no aliasing through unknown pointers, int counters do not '
     'overflow): every path from each failing call to each process end is covered.')

prop('C02', 'mppnccombine -r removes inputs only after complete success',
     'mppnccombine removes an input file only if -r was given, only if no netCDF operation or allocation failed, no named input was '
     'missing and no error was reported before, and only when the output has been completely written and closed.',
     ['fault_sequences', 'inputs', 'crash_points'], 'every failure point and every option combination',
     'tests use -r at most on a good set; data loss appears only when something fails first or the run stops in between',
     ['src/mpp-nccombine/mppnccombine.c'], [('removal loop guarded by the error counters', 'main')], AI,
     'Reachability of every removal call from every failure point and from main without -r, plus no output operation after a '
     'removal.')

prop('C03', 'mppnccombine never destroys a file it did not create',
     'If the output file already exists and -a is not given, mppnccombine leaves it untouched and does not succeed. It never '
     'removes an output file that the same run did not create; with -a it appends to an existing file and never creates it anew; '
     'and in memory-estimate mode (-x) it creates, writes and removes nothing.', ['inputs', 'configurations', 'fault_sequences'],
     'every option combination and every state of the file system', 'tests start in empty directories',
     ['src/mpp-nccombine/mppnccombine.c'], [('existence test before create; record of creation', 'main')], AI,
     'Reachability of every create, open-for-write and remove call from main under the four assumptions.')

prop('C04', 'mppncscatter: any failed operation ends in a non-zero exit status',
     'If any netCDF operation on the input or on any output file fails while mppncscatter runs, or it reports an error (including '
     'a variable it cannot copy), the exit status is not zero. A missing optional axis attribute is not a failure.',
     ['fault_sequences', 'inputs'], 'every operation that can fail, at every point of every run',
     'the tests scatter good files only', ['src/mpp-ncscatter/mppncscatter.c', 'src/mpp-ncscatter/main.c'],
     [('status tests, check_error', 'get_scatter_dims, def_dim, def_var, put_var, mppncscatter')], AI,
     'As C01, for mppncscatter.')

prop('C05', 'Grid, mosaic and regridding tools: a failed netCDF operation is never ignored',
     'In every grid, mosaic, topography, remapping, regridding and river tool, serial or parallel, if any netCDF operation on any '
     'file fails, the tool ends with a non-zero exit status instead of continuing to a successful end. A question whether a file, '
     'variable or attribute exists may be answered by a failed lookup.',
     ['fault_sequences', 'inputs', 'programs'], 'every netCDF operation reachable in each of the tools',
     'tests never make an operation fail; there are hundreds of operations in some twenty programs',
     ['lib/libfrencutils/mpp_io.c', 'lib/libfrencutils/read_mosaic.c'],
     [('netcdf_error / handle_netcdf_error after each call', 'lib/libfrencutils')], AI,
     'As C01, for every program built from the shared libraries, including the MPI builds.')

prop('C06', 'Reported errors and bad command lines never end in success',
     'Every C tool ends with a non-zero exit status when its command line contains an unrecognised option and whenever it has '
     'printed a message beginning with "error" on standard error, unless the message announces a fallback. A fatal error raised '
     'anywhere in the shared library ends the process with a non-zero status and never returns.',
     ['inputs', 'configurations', 'programs'], 'every tool, every command line with an unknown option, every error message',
     'tests check a few usage errors of a few tools', ['lib/libfrencutils/mpp.c', 'src/*/*.c'],
     [('errflg / usage exits', 'main of each tool'), ('mpp_error', 'lib/libfrencutils/mpp.c')], AI,
     'Every option-parser call, error message and instance of the fatal-error routine; parallel tools judged on the root rank.')

prop('C07', 'Grid and regridding tools: every output file is complete and closed',
     'In every grid, mosaic, topography, vertical-grid, remapping, regridding and river tool: each output file the tool creates is '
     'closed on every way to a successful end, and every variable it defines in that file is handed to at least one data-writing '
     'operation between its definition and the closing, whatever the options, grid types and input variants. Data are written only '
     'after the definitions have ended, nothing is defined after that, and no file is used after it was closed.',
     ['inputs', 'configurations', 'programs'], 'every option combination and kind of input of each tool',
     'a variable left at fill values or a file left open shows only for the option combination that takes that path',
     ['src/*/*.c', 'lib/libfrencutils/mpp_io.c'],
     [('mpp_open .. mpp_def_var .. mpp_end_def .. mpp_put_var_value .. mpp_close protocol', 'each tool')],
     'typestate analysis of output files and variables over the interprocedural value-flow of the LLVM SSA form',
     'Decides that the operations are there on every path, not that the values are right. Loops over tiles, files and cells are '
     'taken to run at least once. Variables held in run-time tables (fregrid, remap_land) are decided per table, not per entry.')

prop('C08', 'Every product file records its provenance',
     'Every product file (grid, mosaic, topography, exchange grid, coupler mosaic, regridded field, remap file, river, runoff and '
     'land restart files) that a tool creates carries the global attributes code_release_version, git_hash, creationtime, '
     'hostname and history, on every way the file can be produced, and the history records the command line.',
     ['inputs', 'configurations', 'programs'], 'every product file, under every option combination',
     'tests compare data variables and skip these attributes', ['src/*/*.c', 'lib/libfrencutils/mpp_io.c'],
     [('print_provenance* / mpp_def_global_att', 'each tool; lib/libfrencutils')],
     'must-pass-through analysis from each file creation to the end of its definitions',
     'Weights cached between runs, generated test input and the conversions by transfer_to_mosaic_grid are not products.')

prop('C09', 'Parallel tools: only the root process creates or changes files',
     'In every program built with MPI (fregrid_parallel, make_coupler_mosaic_parallel, make_topog_parallel, remap_land_parallel, '
     'runoff_regrid_parallel), a process other than the root never creates, defines, writes, renames or removes a file, and passes over such operations without an error.',
     ['schedules', 'configurations'], 'every number of processes and every path',
     'the stable tests do not run the parallel programs on several processes', ['lib/libfrencutils/mpp_io.c', 'lib/libfrencutils/mpp.c', 'src/Makefile.am'],
     [('mpp_pe() == mpp_root_pe() guards', 'lib/libfrencutils/mpp_io.c')], AI,
     'Reachability of every file-changing operation from main when the process is not the root.')

prop('C10', 'Parallel tools: collective operations are reached by all processes alike',
     'In every program built with MPI, whether a process takes part in a collective operation (sum, minimum, maximum or gather over all '
     'processes, global-field exchange, synchronisation, finalisation) never depends on something that differs between processes: its rank, '
     'the size or contents of its part of the domain, or counts computed from them. So no run can hang with some processes waiting '
     'for others that took another branch; and where one process sends a message to another, both decide alike, by its length, whether there is one.',
     ['schedules', 'configurations', 'inputs'], 'every number of processes, decomposition and input',
     'the hang needs a decomposition where a process owns nothing or a different number of cells; the stable tests use one process',
     ['lib/libfrencutils/mpp.c', 'lib/libfrencutils/mpp_domain.c', 'src/*/*.c'],
     [('mpp_sum_*, mpp_gather_field_*, mpp_global_field_*, mpp_sync calls', 'lib/libfrencutils; src/fre-grid; src/make-coupler-mosaic')],
     'divergence (non-uniform control dependence) analysis over the LLVM SSA form',
     'Values are followed through SSA, objects, structure fields and calls; a fatal error ends all processes.')

prop('C11', 'Input files are never modified',
     'No tool (C or Fortran) writes to a file it opened as input: inputs are opened without write access, nothing is defined or written through an input '
     'handle, output files are created anew and not read back, and no tool removes, renames or truncates a file (mppnccombine '
     'removes files only as properties C02 and C03 allow).',
     ['inputs', 'configurations', 'programs'], 'every tool and every file it opens',
     'tests do not compare their inputs before and after', ['src/*/*.c', 'lib/libfrencutils/mpp_io.c'],
     [('open modes', 'mpp_open; nc_open in each tool')],
     'typestate analysis of file handles over the interprocedural value-flow of the LLVM SSA form',
     'That an output name differs from an input name is the user\'s choice (run-time strings) and not decided here.')


prop('C12', 'Every command-line option does its own job and no other',
     'In every C tool that parses its options with getopt: each option in its table is handled (not rejected as unknown), changes '
     'something that the tool uses after reading the options, uses an argument exactly when it is declared to take one (a fractional number keeps its fraction), is not silently ignored for some arguments, and neither repeats, '
     'includes nor undoes the effect of another option, nor does the work of one whose name it does not bear. The table is terminated, so unknown options are recognised as such.',
     ['configurations', 'inputs', 'programs'], 'all options of all tools (more than 350), in every order',
     'tests use a small part of the options, and an option that disturbs another shows only when both are given in a certain order',
     ['src/*/*.c'], [('getopt_long loop', 'main of each tool; src/mpp-ncscatter/opt.c')],
     'effect analysis of each option handler: abstract interpretation from the parser call to the next one with the option fixed',
     'Decides what the option loop does with each option, not what the tool later makes of the setting.')


prop('C13', 'A Fortran tool that fails or reports an error never exits 0',
     'In decompress-ncc, combine-ncc, scatter-ncc, plevel-interp, time_average and list_ncvars: if any netCDF operation fails, or a '
     'message that begins with ERROR (or NETCDF ERROR) has been printed, the exit status is not zero. The question whether an attribute, '
     'a variable or a dimension exists, or whether a dimension is compressed, may be answered by a failed lookup.',
     ['inputs', 'faults', 'programs'], 'every netCDF operation (about 260) of six tools failing at any point, for all inputs',
     'tests use good inputs and a working disk', ['src/land_utils/*.F90', 'src/plevel/*.F90', 'src/timeavg/*.f90', 'src/list-ncvars/*.f90',
      'lib/libnfu/*.F90', 'src/nct_nc_utils.F90'],
     [('__NF_ASRT__/CHECK_NF_ERRSTAT', 'lib/libnfu'), ('error_handler', 'run_pressure_interp.F90'), ('error_handler', 'time_average.f90'),
      ('nct_hst_att_cat', 'src/nct_nc_utils.F90')],
     'fault-propagation analysis: abstract interpretation from every failing call to the end of the process, over the GIMPLE SSA form',
     'Decides the exit status after a fault, not the wording of the message; gfortran run-time errors are taken to end with a non-zero status.')


prop('C14', 'A Fortran tool that succeeds has ended and closed every file it created',
     'Every output file that decompress-ncc, combine-ncc, scatter-ncc, plevel-interp or time_average creates is, on every way to an end '
     'with status zero, taken out of define mode and closed, so that its header and all its data are on disk.',
     ['inputs', 'programs', 'configurations'], 'every way from the creation of an output file to a successful end',
     'tests follow a few ways through each tool', ['src/land_utils/*.F90', 'src/plevel/*.F90', 'src/timeavg/*.f90'],
     [('output file handle', 'MAIN of each tool')],
     'typestate analysis of the output handle along all paths of the GIMPLE SSA form',
     'A loop over the output files is taken to run at least once when a file was created in such a loop.')


prop('C15', 'Built with OpenMP, the threads never race for shared data',
     'In every OpenMP parallel region (exchange grid generation, fregrid start-up), for every number of threads and every schedule: no '
     'memory that threads share (captured variables and arrays, static objects, also those of the functions called) is written by one '
     'iteration and read or written by another, other than to store the same value. So the exchange grid does not depend on the threads.',
     ['schedules', 'configurations', 'inputs'], 'all numbers of threads, schedules and grids',
     'the tests build without OpenMP, and a race shows only under some schedules',
     ['lib/libfrencutils/create_xgrid.c', 'src/fre-grid/fregrid.c', 'lib/libfrencutils/mosaic_util.c'],
     [('omp parallel for', 'create_xgrid_2dx2d_order1'), ('omp parallel for', 'create_xgrid_2dx2d_order2')],
     'data-race analysis: symbolic index expressions of all shared accesses in the outlined OpenMP regions of the LLVM SSA form',
     'Arrays reached through different captured pointers are taken not to overlap, nor the blocks that a per-iteration table of offsets gives.')


prop('C16', 'Exchange cells are never stored beyond the arrays that hold them',
     'However many exchange cells two grids have: every array that collects them (fregrid, make_coupler_mosaic, make_topog, '
     'runoff_regrid; its size is --maxxgrid or the default) is written only below its capacity, and the tool stops with an error before it '
     'would be exceeded. The same holds for the lists of fixed length that make_coupler_mosaic keeps of exchange cells per atmosphere cell '
     'and of exchange grid files.',
     ['inputs', 'configurations'], 'all pairs of grids and all limits',
     'the limit is a million cells; no test comes near it', ['lib/libfrencutils/create_xgrid.c', 'src/make-coupler-mosaic/make_coupler_mosaic.c',
      'src/fre-grid/conserve_interp.c', 'lib/libfrencutils/interp.c'],
     [('nxgrid', 'create_xgrid_*'), ('naxo, naxl, nlxo, nwxo', 'make_coupler_mosaic main')],
     'bounds analysis relative to the symbolic capacity, by induction over counters, with allocation-site tracking through calls',
     'Counters are taken to start at zero; buffers for names and polygon vertices are not covered.')

prop('C17', 'Every option that is documented exists and takes an argument as documented',
     'Every option that the usage text or the manual page of a C tool documents is accepted by the tool under exactly that name, and '
     'it takes an argument if and only if the documentation shows one. No documented option is refused, and none silently swallows '
     'the next word of the command line or leaves its own value unread.',
     ['configurations', 'programs'], 'every documented option of every C tool',
     'tests use the option names that work; nobody reads the documentation against the option table',
     ['src/*/*.c', 'man/*.txt'], [('usage strings and long_options / getopt strings', 'each tool; man/')],
     'extraction of the documented options (usage strings in the IR, manual pages) and of the option tables from constant data, compared',
     'A shown argument is one token after the option name; the meaning of the text is not judged.')

prop('C18', 'Values of every netCDF type are moved by operations made for that type',
     'Whatever the netCDF type of a variable or attribute (byte, char, short, int, float, double or any other): its values are read, '
     'copied and written only by operations for that type, in memory laid out for it; a type a tool does not handle is refused with an '
     'error and never silently skipped, left at zero or filled with the bytes of another type. What a tool writes to a variable comes '
     'from a buffer of the type the variable was defined with.',
     ['inputs', 'programs'], 'every netCDF type at every place that distinguishes types, and every output variable',
     'tests use float and double data, and compare a few of the outputs',
     ['lib/libfrencutils/mpp_io.c', 'lib/libfrencutils/read_mosaic.c', 'src/mpp-ncscatter/mppncscatter.c', 'src/mpp-nccombine/mppnccombine.c',
      'src/fre-grid/fregrid_util.c', 'src/make-topog/topog.c'],
     [('switch(type) dispatches', 'mpp_get_var_value*, mpp_put_var_value*, hyperslabcopy, put_var, process_vars, get_input_data, write_field_data'),
      ('mpp_def_var type and mpp_put_var_value buffer', 'each tool')],
     'abstract interpretation with the type fixed to each netCDF type in turn, element types of buffers from the type checker',
     'Reads whose buffer type does not depend on the type of the variable (grid files of known layout) are not covered.')

prop('C19', 'Split, combined and copied files keep every dimension, variable and attribute',
     'For every input file: each file mppncscatter writes and the file mppnccombine makes from the first input has every dimension, '
     'every variable and every attribute (of variables and of the file) of the input, except NumFilesInSet, domain_decomposition and the '
     'value of filename; mppncscatter writes the data of every static and every record variable to each file, and mppnccombine reads '
     'the first record of every variable and writes it at once or, if it is spread over the files, after the last one. The library '
     'calls that copy the attributes of a variable or of a file copy all of them; fregrid (except time_avg_info and coordinates) and '
     'remap_land define every field of the input with its attributes. mppncscatter and mppnccombine close every file they wrote before a '
     'successful end. combine-ncc and scatter-ncc define every dimension and every variable, and they and decompress-ncc copy every attribute, of their '
     'input, in every output file, and their loops over variables, records and slices write from the first to the last. No item is left out because of its name, type, position, number of '
     'dimensions or length unless the program then fails.',
     ['inputs', 'programs'], 'every dimension, variable and attribute of every input file',
     'tests compare a few files whose variables and attributes are alike',
     ['src/mpp-ncscatter/mppncscatter.c', 'src/mpp-nccombine/mppnccombine.c', 'lib/libfrencutils/mpp_io.c', 'src/fre-grid/fregrid_util.c',
      'src/remap-land/remap_land.c', 'src/land_utils/combine-ncc.F90', 'src/land_utils/scatter-ncc.F90', 'src/land_utils/decompress-ncc.F90', 'lib/libnfu/nfu.F90'],
     [('loops over dimensions, variables, attributes', 'def_dim, def_var, put_var, process_file, process_vars, flush_decomp'),
      ('mpp_copy_var_att, mpp_copy_global_att', 'mpp_io.c'), ('set_output_metadata, write_field_data', 'fregrid_util.c'),
      ('definition of the restart variables', 'remap_land.c main')],
     'loop-coverage analysis: counting form of the loops, paths of one turn by abstract interpretation, must-reach of the loops from the entry',
     'Presence, not content: values are the subject of C18. Later records of mppnccombine and appended outputs are not covered.')

prop('C20', 'A question about existence is answered by the lookup and by nothing else',
     'For every file and every name: ncexists prints 1 and succeeds if the global attribute (-g), the variable (-v) or the attribute of '
     'the variable (-v -a) it is asked about is in the file, whatever its type, length or position, prints 0 and succeeds if it is not, '
     'and gives no answer without having looked. is-compressed exits with 0 exactly if the variable of some dimension of the file, '
     'whichever it is, has the attribute compress. The library questions mpp_file_exist, mpp_field_exist, mpp_var_exist, mpp_dim_exist, '
     'mpp_var_att_exist, mpp_global_att_exist and field_exist, on which the tools base optional input, answer yes if the lookup succeeds '
     'and no if it fails, and let nothing else into the answer.',
     ['inputs'], 'every file, every name asked about',
     'tests ask about a few items of one file',
     ['src/nc-exists/ncexists.c', 'src/land_utils/is-compressed.c', 'lib/libfrencutils/mpp_io.c', 'lib/libfrencutils/read_mosaic.c'],
     [('nc_inq_att, nc_inq_varid and the answers printed after them', 'ncexists.c main'), ('loop over the dimensions', 'is-compressed.c main'),
      ('mpp_*_exist, field_exist', 'mpp_io.c, read_mosaic.c')],
     'abstract interpretation of what follows each lookup, once with success and once with failure assumed, to the answer or the exit status',
     'That nc_inq_* report existence truthfully is the netCDF library\'s part.')


exec(open(os.path.join(HERE, 'tools', 'spec_more.py')).read())


def main():
    allp = sorted([p[0] for p in P] + [n[0] for n in N], key=lambda d: d['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for d in allp:
            assert len(d['title']) <= 80, d['title']
            fh.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
    for d, tech, note, na in sorted(P, key=lambda x: x[0]['id']):
        m['checks'].append(dict(property=d['id'], quick_cmd='./check %s' % d['id'], thorough_cmd='./check %s --thorough' % d['id'],
                                technique='static analysis: ' + tech, level='other', level_note=note))
    for d, tech, note, na in sorted(N, key=lambda x: x[0]['id']):
        m['not_applicable'].append(dict(property=d['id'], reason=na))
    m['notes'] = 'All checks compile /repo to IR and analyse it; nothing of /repo is executed.'
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
