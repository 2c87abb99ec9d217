import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
p("G01","Site indexing and neighbour tables describe one periodic lattice",
"For any lattice extents, site indices and coordinate vectors correspond one to one with the first dimension running fastest, the forward and backward neighbour of every site in every direction is the site one step away with periodic wrap, forward and backward steps undo each other, and shifts, distances and lattice momenta derived from an index agree with that coordinate system.",
["inputs","configurations"],"all lattice extents (even, odd, unequal, thin) and compiled dimensions, every site and direction","The tests look at the neighbours of the origin on one 4^ND lattice; a wrong wrap on an unequal or odd extent, or at another site, is invisible to them.",
["src/Geometry/geometry.c","src/Geometry/init.c"],[("index <-> coordinate conversion and shift","src/Geometry/geometry.c gen_site/get_mom_2piBZ/gen_shift"),("neighbour table initialisation","src/Geometry/init.c init_navig")])
p("G02","Simultaneously updated sites are independent",
"For every lattice whose extents are all at least two, the colouring used for parallel in-place updates assigns each site to exactly one colour, and no two sites of one colour are nearest neighbours under the periodic wrap; for improved actions no two simultaneously updated links share a plaquette or rectangle.",
["inputs","configurations"],"all extents >= 2 (even and odd, in any mixture), full lattice and spatial slice","No test builds the colouring; a defective colour class only shows as a data race and as a wrong Markov chain on particular extents.",
["src/Geometry/draughtboard.c","src/Update/hb.c","src/Update/relax.c","src/Gfix/Or.c"],[("draughtboard construction","src/Geometry/draughtboard.c init_cb")])
p("R01","Random numbers: seeded, reproducible, uniform, independent per thread",
"With a given seed and thread count every random stream is reproduced exactly, different seeds and different threads give different streams, uniform variates lie in the unit interval with the moments and independence of the uniform distribution, Gaussian variates have zero mean and the documented variance, and random group elements are special unitary and distributed invariantly.",
["inputs","schedules"],"all seeds, thread counts and draw orders","The tests draw no random numbers except to fill one lattice and never look at their distribution or at the per-thread streams.",
["src/Utils/par_rng.c","src/Utils/par_MWC_4096.c","src/Utils/par_KISS.c","src/Utils/par_MWC_1038.c","src/Utils/par_XOR_1024.c","src/Matrix_Ops/U_Nops.c","src/Geometry/random_config.c"],[("per-thread generator tables","src/Utils/par_rng.c"),("random group elements","src/Geometry/random_config.c")])
p("R02","A saved random-number state continues the stream exactly",
"After any number of draws, writing the generator state to a file and reading it back, in the same or another process with the same number of threads, continues every thread's stream with exactly the numbers an uninterrupted run would have drawn; a state that does not fit the run (another number of threads, another generator, cut short) is never taken over without a complaint.",
["histories","crash_points"],"any draw history before the save, any thread count, every selectable generator","No test saves or restores a generator.",
["src/Utils/par_rng.c","src/Utils/par_KISS.c","src/Utils/par_MWC_4096.c","src/Utils/par_MWC_1038.c","src/Utils/par_XOR_1024.c","src/Update/KPHB.c"],[("state serialisation","src/Utils/par_rng.c write_par_rng_state/read_par_rng_state")])
p("M01","Matrix kernels compute exactly the algebra they name",
"For every number of colours and with or without vector instructions, the products with any combination of daggers, the special-unitary shortcuts on special-unitary arguments, traces of products, additions, daggers, determinants, inverses and equality/unitarity predicates return the textbook result to rounding accuracy and leave their inputs unchanged.",
["inputs","configurations"],"all matrices (general and SU(N), structured and random), all compiled colour counts and instruction-set choices","The tests compare a few kernels on one or two fixed or random matrices per build; entry-specific slips and rarely used kernels escape.",
["src/Matrix_Ops/MMUL","src/Matrix_Ops/U_Nops.c","src/Matrix_Ops/trace_abc.c","src/Matrix_Ops/trace_abc_SSE.c","src/Matrix_Ops/LU.c","src/Matrix_Ops/LU_SSE.c","src/Matrix_Ops/invert.c","src/Matrix_Ops/invert_SSE.c"],[("unrolled and SSE kernels","src/Matrix_Ops/MMUL"),("U_Nops","src/Matrix_Ops/U_Nops.c")])
p("M02","Exponentials, logarithms and projections land on the right group element",
"Exponentiating a traceless Hermitian matrix gives the special unitary matrix exponential, the exact logarithm inverts it for links away from the branch cut, the traceless Hermitian projection equals its definition, and reunitarisation and group projection return special unitary matrices, leave special unitary input unchanged to rounding, and are covariant under multiplication by group elements where their definition is.",
["inputs","configurations"],"all Hermitian matrices including zero, degenerate and large eigenvalues; all links near and far from the identity; all compiled colour counts","The tests use one fixed matrix; degenerate spectra and near-identity branches are never reached.",
["src/Matrix_Ops/expMat.c","src/Matrix_Ops/exactQ.c","src/Matrix_Ops/effs.c","src/Matrix_Ops/taylor_logs.c","src/Matrix_Ops/gramschmidt.c","src/Matrix_Ops/gramschmidt_SSE.c","src/Matrix_Ops/givens.c","src/Matrix_Ops/evalues.c","src/Matrix_Ops/vandermonde.c","src/Smear/projectors.c"],[("Cayley-Hamilton exponentiation","src/Matrix_Ops/expMat.c"),("exact logarithm","src/Matrix_Ops/exactQ.c"),("Gram-Schmidt","src/Matrix_Ops/gramschmidt.c")])
p("O01","Plaquettes, link traces and Polyakov loops equal their definitions",
"On every gauge configuration the average plaquette (total, spatial, temporal), the average link trace (total, spatial, temporal) and the Polyakov loop in each direction equal the normalised sums over all sites of the traces of the defining products.",
["inputs","configurations"],"all gauge fields, extents, colour counts, dimensions, thread counts","The tests only check that these numbers do not change under one gauge transformation on a 4^ND lattice, which a missing plane or a wrong normalisation also satisfies.",
["src/Field/plaqs_links.c","src/Field/POLY.c","src/Wrappers/OBS_wrap.c"],[("plaquette and link sums","src/Field/plaqs_links.c"),("Polyakov loop","src/Field/POLY.c")])
p("O02","Field strength and topological charge equal the clover definition",
"On every four-dimensional configuration the clover field strength, the action density built from it, the topological charge density at every site and the total topological charge equal their definition from the four-leaf clover, are odd respectively even under parity as they should be, and vanish on pure-gauge fields.",
["inputs","configurations"],"all gauge fields, extents, colour counts, plain and improved clover builds, thread counts","No existing test evaluates a field strength or a topological charge.",
["src/Field/clover.c","src/Field/plaqs_links.c","src/Geometry/BPST_config.c"],[("clover leaves","src/Field/clover.c"),("charge normalisation","src/Field/plaqs_links.c gauge_topological_meas_th")])
p("O03","Physical observables are invariant under gauge and lattice symmetries",
"Plaquettes, Polyakov loop moduli, action density and topological charge, closed static-quark loops and flowed observables do not change under any gauge transformation, are unchanged by translating the lattice periodically, and follow permutations of the lattice axes.",
["inputs"],"all gauge fields, all gauge transformations, all translations and axis permutations","Two of the observables are tested for one gauge transformation on one lattice; translations, permutations and the other observables never are.",
["src/Field/plaqs_links.c","src/Field/POLY.c","src/Field/clover.c","src/Gfix/gtrans.c","src/Smear"],[("gauge transformation","src/Gfix/gtrans.c")])
p("S01","Each smearing step is the transform its name stands for",
"Every smearing (APE, STOUT, LOG and their hypercubic variants; three-, four- and general-dimensional; spatial-only and all directions) replaces each link by the published function of that link and its surrounding staples evaluated on the previous iterate, any number of iterations composes that map, and the alternative implementations of one transform agree.",
["inputs","configurations"],"all gauge fields, smearing parameters, iteration counts, directions, extents and compiled variants","No existing test runs any smearing.",
["src/Smear/smear.c","src/Smear/4D_fast.c","src/Smear/HYP.c","src/Smear/ND_generic_HYP.c","src/Smear/projectors.c","src/Smear/staples.c","src/Wrappers/SM_wrap.c"],[("staple accumulation","src/Smear/staples.c"),("projection","src/Smear/projectors.c"),("HYP decorations","src/Smear/HYP.c src/Smear/4D_fast.c src/Smear/ND_generic_HYP.c")])
p("S02","Smearing and flow preserve the group and commute with gauge transformations",
"Every smearing or flow step returns special unitary links, commutes with gauge transformations and lattice translations, leaves the trivial field and every gauge transform of it unchanged, leaves links outside its directions untouched, and increases the average plaquette of smooth fields for small parameters.",
["inputs","histories"],"all gauge fields, parameters within their stable range, iteration counts","No existing test runs any smearing; unitarity drift and broken covariance only show on general fields.",
["src/Smear","src/Matrix_Ops/gramschmidt.c","src/Matrix_Ops/expMat.c"],[("projection back to the group","src/Smear/projectors.c")])
p("S03","The gradient flow integrates the flow equation and reports it truthfully",
"The fixed-step flow follows the third-order Runge-Kutta solution of the Wilson flow equation, its memory-saving and adaptive versions arrive at the same flowed field within the integrator's accuracy, the action decreases monotonically along it, the flow stops where asked, and each reported flow time, plaquette, action density and charge is that of the field at that time.",
["inputs","histories"],"all gauge fields, step sizes, step counts, flow variants and directions of flow","No existing test runs a flow; variant disagreement and stale reports need a full trajectory and a reference integrator to be seen.",
["src/Smear/wflow.c","src/Smear/adaptive_flow.c","src/Smear/wflowfuncs.c","src/Wrappers/SM_wrap.c"],[("RK3 steps","src/Smear/wflowfuncs.c"),("adaptive step control","src/Smear/adaptive_flow.c"),("measurement and scale setting","src/Smear/wflow.c")])
p("F01","Gauge fixing only performs a gauge transformation",
"Whatever the gauge, algorithm, preconditioning, iteration limit or outcome, the field after gauge fixing is a gauge transform of the field before it: links stay special unitary and every gauge-invariant quantity is preserved.",
["inputs","configurations","histories"],"all gauge fields, gauges, algorithms (accelerated and not, steepest descent, conjugate gradient, over-relaxation), accuracies, iteration limits including failures and restarts","No existing test fixes a gauge; a field corrupted only on restart, on non-convergence or in one direction cannot be seen by any of them.",
["src/Gfix/Landau.c","src/Gfix/Coulomb.c","src/Gfix/FACG.c","src/Gfix/CFACG.c","src/Gfix/CG.c","src/Gfix/Or.c","src/Gfix/MAG.c","src/Gfix/gtrans.c","src/Wrappers/GF_wrap.c"],[("gauge transformation application","src/Gfix/gtrans.c"),("restart after failure","src/Gfix/Landau.c src/Gfix/Coulomb.c")])
p("F02","A gauge reported as fixed satisfies its gauge condition",
"When a gauge-fixing run reports convergence the defining condition of that gauge holds on the resulting field to the requested accuracy when evaluated independently (vanishing lattice divergence for Landau and for Coulomb on every time slice, trivial links for axial, constant temporal traces for the residual fix), the gauge functional has not got worse, and a run that stops short does not report success.",
["inputs","configurations","histories"],"all gauge fields, gauges, algorithms, accuracies and iteration limits","No existing test fixes a gauge or evaluates a gauge condition.",
["src/Gfix/Landau.c","src/Gfix/Coulomb.c","src/Gfix/FACG.c","src/Gfix/CFACG.c","src/Gfix/gftests.c","src/Gfix/lin_derivs.c","src/Gfix/log_derivs.c","src/Gfix/line_search.c","src/Gfix/Or.c","src/Gfix/MAG.c"],[("convergence measure","src/Gfix/lin_derivs.c src/Gfix/gftests.c")])
p("U01","Updates touch every link, stay in the group; over-relaxation keeps the action",
"Every heat-bath or over-relaxation sweep leaves all links special unitary and changes every link, an over-relaxation sweep conserves the Wilson action to rounding, and each single-subgroup update rotates the link only within that subgroup as determined by its staple.",
["inputs","configurations","histories"],"all gauge fields, couplings, colour counts, dimensions, extents, thread counts, sweep counts","No existing test updates a field.",
["src/Update/hb.c","src/Update/relax.c","src/Update/SU2_rotate.c","src/Update/SU2_rotate_SSE.c","src/Update/KPHB.c","src/Smear/staples.c"],[("subgroup rotations","src/Update/SU2_rotate.c"),("staple computation","src/Smear/staples.c all_staples")])
p("U02","The heat bath samples the Boltzmann distribution of the Wilson action",
"Started from any configuration the update converges to the Wilson-action ensemble at the requested coupling: single-subgroup updates reproduce the analytic heat-bath distribution for their staple, and equilibrium plaquettes agree with exactly or independently known values at weak, intermediate and strong coupling.",
["inputs","histories"],"all couplings, starts, extents, colour counts, thread counts","No existing test updates a field; detailed-balance errors only show statistically against a known answer.",
["src/Update/hb.c","src/Update/relax.c","src/Update/KPHB.c"],[("Kennedy-Pendleton / Creutz accept-reject","src/Update/hb.c")])
p("U03","A continued update run equals the uninterrupted run",
"A run that is stopped after any saved configuration and continued from that configuration and its saved random-number state produces the same later configurations as the run that was never stopped, and every saved configuration is readable and is the field that was measured at that point.",
["histories","crash_points"],"every save point, thread count and storage format used for saving","No existing test updates, saves or continues a run.",
["src/Update/KPHB.c","src/Utils/par_rng.c","src/IO/writers.c"],[("continuation","src/Update/KPHB.c hb_update")])
p("I01","Writing then reading a configuration returns the same links in every format",
"A configuration written in any of the supported storage formats and read back yields the same links to the precision that format stores (NERSC_SMALL away from the singularities of its coordinates), the same extents, and passes the reader's own checks.",
["inputs","configurations"],"all gauge fields including trivial and degenerate ones, extents, colour counts, formats, thread counts","No existing test writes or reads a configuration.",
["src/IO/writers.c","src/IO/readers.c","src/IO/write_headers.c","src/IO/read_headers.c","src/IO/HIREP.c","src/IO/CERN.c","src/IO/Scidac.c","src/IO/XML_info.c","src/Matrix_Ops/U_Nops.c"],[("format dispatch","src/IO/writers.c write_lat; src/IO/readers.c"),("compressed storage","src/Matrix_Ops/gramschmidt.c")])
p("I02","Files follow the published format so that other programs can exchange them",
"Decoding a written file by the format's specification alone (header fields, byte order, site and direction order, matrix layout, record framing) yields the stored links, and its header's extents, plaquette, link trace and checksums are those of the stored field; conversely a file produced from the specification in either byte order and precision is read to the right links.",
["inputs","configurations"],"all gauge fields, extents, formats, precisions and byte orders","No existing test writes or reads a configuration, and a writer and reader that share an error agree with each other.",
["src/IO/writers.c","src/IO/readers.c","src/IO/write_headers.c","src/IO/read_headers.c","src/IO/crc.c","src/IO/Scidac.c","src/IO/XML_info.c","src/IO/CERN.c","src/IO/HIREP.c","src/Utils/GLU_bswap.c"],[("checksums","src/IO/crc.c src/IO/readers.c"),("headers","src/IO/write_headers.c src/IO/read_headers.c")])
p("I03","Corrupt, truncated or mismatched configurations are refused",
"A configuration file that is truncated, or whose payload or header has been altered so that the values its format stores to guard the links (checksums, for HIREP and CERN the plaquette; for NERSC all of checksum, plaquette and link trace together) no longer match, or that describes another lattice than its payload, is not accepted as a valid configuration; for NERSC any single mismatch is reported.",
["fault_sequences","inputs"],"any byte position, any truncation point, every checksummed format","No existing test reads a file, valid or not.",
["src/IO/chklat_stuff.c","src/IO/read_config.c","src/IO/readers.c","src/IO/read_headers.c","src/IO/Scidac.c","src/IO/CERN.c","src/IO/HIREP.c"],[("post-read checks","src/IO/read_config.c checks"),("short reads","src/IO/readers.c")])
p("I04","Existing files are never overwritten and failed writes are reported",
"Asked to write a configuration to a path that already holds a file, the program leaves that file byte for byte as it was and reports failure; a write that cannot be carried out (unwritable directory, full device) is reported as a failure and does not crash.",
["fault_sequences","inputs"],"every storage format and every write fault","No existing test writes a file or injects a fault.",
["src/Wrappers/GLUlib_wrap.c","src/IO/writers.c","src/IO/CERN.c","src/IO/HIREP.c"],[("existence check","src/Wrappers/GLUlib_wrap.c write_configuration")])
p("I05","Hostile headers and input files never cause memory errors",
"Whatever bytes a configuration file or an input file contains, reading it either succeeds or fails with an error; it never reads or writes outside its buffers, dereferences an invalid pointer, executes undefined behaviour or fails to terminate.",
["inputs","fault_sequences"],"arbitrary bytes in headers and input files, mutated from valid ones, for every format","No existing test parses a header or an input file.",
["src/IO/read_headers.c","src/IO/chklat_stuff.c","src/IO/XML_info.c","src/IO/Scidac.c","src/IO/input_reader.c","src/IO/CERN.c","src/IO/HIREP.c"],[("header tokenising","src/IO/chklat_stuff.c"),("XML scanning","src/IO/XML_info.c"),("input packing","src/IO/input_reader.c")])
p("I06","Input-file settings take effect exactly as written",
"The settings the program runs with are those given in the input file, independent of the order of its lines and of spacing; every documented value of every option selects its own behaviour; and a missing setting or a nonsensical number is refused instead of silently replaced, while an unknown name selects the announced default or is refused.",
["inputs"],"all permutations of lines, all documented option values, missing and malformed settings","No existing test parses an input file.",
["src/IO/input_reader.c","src/Run/Mainfile.c","CONF/input_file"],[("tag lookup","src/IO/input_reader.c")])
p("T01","Results do not depend on the number of threads or their scheduling",
"Every deterministic operation (observables, smearing, flow, gauge fixing, reading and writing, correlators, over-relaxation) gives the same result to rounding for any number of threads and in repeated runs, and operations drawing random numbers are reproducible for a fixed thread count.",
["schedules","inputs"],"all thread counts, including more threads than sites or slices, repeated executions","The tests run with one thread.",
["src/Field","src/Smear","src/Gfix","src/Cuts","src/IO","src/Update"],[("OpenMP regions and reductions","src/Field/plaqs_links.c src/Utils/GLU_sums.c")])
p("C01","Correlator files list every requested momentum once, with the promised layout",
"For each momentum cut the list of momenta written contains exactly the momenta the cut selects, once each and closed under reflection where the cut is, every value written belongs to the momentum at the same position, and the file decodes completely by its documented big-endian layout.",
["inputs","configurations"],"all extents, cut types, cut parameters and measurement types","No existing test runs a cut or writes a correlator file.",
["src/Cuts/cut_output.c","src/Cuts/cut_routines.c","src/Cuts/3Dcuts.c","src/Cuts/cuts.c","src/Cuts/triplet_gen.c"],[("momentum list","src/Cuts/cut_routines.c"),("file output","src/Cuts/cut_output.c")])
p("C02","Gluon fields and propagators equal the Fourier transform definition",
"The momentum-space gluon correlators (two- and three-point, transverse and longitudinal, instantaneous and configuration-space) equal what the definition gives from the Hermitian gauge potential of the same links, with or without the fast Fourier library where both are offered.",
["inputs","configurations"],"all gauge fields, extents, definitions of the gauge potential, colour counts","No existing test computes a correlator.",
["src/Cuts/cuts.c","src/Cuts/glueprop.c","src/Cuts/MOMgg.c","src/Cuts/MOMggg.c","src/Cuts/config_gluons.c","src/Cuts/3Dcuts.c","src/Cuts/pspace_landau.c","src/Cuts/smearing_param.c","src/Matrix_Ops/lie_mats.c"],[("field projection and transform","src/Cuts/cuts.c"),("contractions","src/Cuts/MOMgg.c src/Cuts/MOMggg.c src/Cuts/glueprop.c")])
p("C03","Static potential and topological correlators equal their definitions",
"The static-quark correlator at every separation and temporal extent equals the translation-averaged product of the temporal loops it is defined by, the topological correlator, its time-slice sums, its cumulative charge, susceptibility and moments equal the definition from the charge density, and sums over separations reproduce the squared total charge.",
["inputs","configurations"],"all gauge fields, extents, cuts, separations, builds with and without the fast Fourier library","No existing test computes a correlator.",
["src/Field/POLY.c","src/Field/Qcorr.c","src/Field/Qslab.c","src/Field/Qsusc.c","src/Field/Qmoments.c"],[("correlations","src/Field/POLY.c src/Field/Qcorr.c")])
p("X01","The U(1) field is a free photon and only multiplies links by phases",
"Combining a configuration with the quenched U(1) field multiplies each link by a unit phase, reproducibly for a seed; with zero coupling or charge it changes nothing, and over many seeds the photon field's momentum modes are Gaussian with the free Feynman-gauge variance set by the coupling. The U(1) plaquettes, rectangles and topological numbers it reports are those of that field.",
["inputs","histories"],"all seeds, couplings, charges and extents","No existing test generates a U(1) field.",
["src/U1/SUNCxU1_config.c","src/U1/U1_obs.c","src/U1/U1_top.c"],[("photon generation","src/U1/SUNCxU1_config.c")])
p("P01","No run mode performs an invalid memory access or undefined behaviour",
"In every mode, with every combination of documented option values and any valid lattice, the program runs to its end without accessing memory it does not own, using freed memory, or executing undefined behaviour.",
["inputs","configurations","programs"],"all modes and documented options, extents (including odd and unequal), thread counts, compiled variants","The tests exercise a few kernels, one lattice, no mode of the program, and no sanitizer.",
["src/Run/Mainfile.c","src/Wrappers","src/Smear","src/Gfix","src/Cuts","src/Update","src/IO"],[("allocation and indexing throughout","src/Geometry/init.c src/Utils/GLU_malloc.c")])
p("P02","A run of the program delivers what its library calls compute",
"Running the program with an input file reads the given configuration, applies exactly the requested transformation to it, prints the observables of the field it holds, and writes that field to the requested output, so the written file equals applying the same operation to the same links; a run that cannot read its configuration produces no output file.",
["programs","inputs"],"all modes and options applied to valid and invalid configurations","No existing test runs the program.",
["src/Run/Mainfile.c","src/Wrappers/GLUlib_wrap.c","src/Wrappers/GF_wrap.c","src/Wrappers/SM_wrap.c","src/Wrappers/CUT_wrap.c","src/Wrappers/OBS_wrap.c","src/IO/input_reader.c"],[("mode dispatch","src/Run/Mainfile.c main")])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [x["id"] for x in P if len(x["title"])>80])
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
