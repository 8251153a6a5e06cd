"""Texts of the properties (source of properties.jsonl and MANIFEST.json)."""
MON = "runtime monitoring: "
PROPS = [
 dict(id="C01", title="Fragment orbital spaces are orthonormal, complete and hold the right electrons",
  statement="Whatever the fragmentation (IAO, SAO, IAO+PAO, site, CAS) and whichever atoms or orbitals are grouped, every fragment's orbitals are orthonormal in the AO metric, "
            "span exactly the local orbitals asked for, and carry the mean-field electrons of those orbitals. "
            "Fragments partitioning the local basis are mutually orthogonal, together span it and add up to all electrons; requests that make no sense are rejected, and fragment queries and flags return exactly the matching fragments.",
  over=["inputs", "configurations", "histories"], forall="all molecules/cells/lattices, RHF and UHF, all fragmentation methods, groupings, orbital filters and flag combinations",
  tests="The tests check a few fixed molecules and groupings by comparing energies with stored numbers; they cannot reach arbitrary groupings, filters and open-shell references.",
  files=["vayesta/core/fragmentation/", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py"],
  mech=[dict(name="Fragmentation kernels and fragment registry", where="vayesta/core/fragmentation/*.py"), dict(name="fragment queries and completeness tests", where="vayesta/core/qemb/qemb.py")],
  tech=MON + "monitors on the fragments created by the real code, with projector/electron-count conservation checks against independently built local orbitals",
  note="sampled molecules, cells and lattices, both spins; seeded, so the same exploration on every run"),
 dict(id="C02", title="Clusters contain the fragment, are orthonormal, and baths obey their definition",
  statement="For every fragment and bath type, cluster and frozen orbitals together are an orthonormal basis of the whole space, occupied and virtual cluster orbitals lie in the mean-field occupied and virtual spaces, and the fragment is contained in the cluster. "
            "The DMET part is the smallest space that contains the fragment's entanglement, bath natural orbitals are ordered by occupation, and thresholds, orbital numbers, electron fractions, radii and orders select exactly the orbitals their definition selects. "
            "Tightening a truncation never removes orbitals, and the full bath is the whole system.",
  over=["inputs", "configurations"], forall="all systems, fragments, bath types, truncation parameters, RHF and UHF",
  tests="Tests compare a few energies per bath type; containment, selection and monotonicity must hold for every threshold and fragment.",
  files=["vayesta/core/bath/", "vayesta/core/qemb/fragment.py", "vayesta/core/types/cluster.py"],
  mech=[dict(name="DMET bath SVD and bath-orbital truncation", where="vayesta/core/bath/*.py"), dict(name="cluster assembly", where="vayesta/core/qemb/fragment.py")],
  tech=MON + "invariant monitors on every cluster built (orthonormality, containment, occupation) and reference bath orbitals recomputed densely from the definition",
  note="sampled systems and truncation parameters; ambiguous thresholds are skipped, not judged"),
 dict(id="C03", title="With complete baths the embedding reproduces the full calculation",
  statement="When every cluster spans the whole system and the fragments cover it, the embedded correlation energy from any energy functional, the global amplitudes and density matrices, and the DMET energy equal those of the same solver applied to the whole system without embedding. "
            "This holds for any choice of fragments and for MP2, CISD, CCSD, FCI and the other solvers, restricted or unrestricted, molecular or periodic.",
  over=["inputs", "configurations"], forall="all systems, fragmentations (complete), solvers, functionals, with and without density fitting",
  tests="Tests hold the limit for a handful of geometries and functionals; here fragmentation, solver, functional and reference are crossed.",
  files=["vayesta/ewf/", "vayesta/dmet/", "vayesta/solver/", "vayesta/core/qemb/"],
  mech=[dict(name="democratic partitioning of amplitudes and energies", where="vayesta/ewf/ewf.py, vayesta/ewf/fragment.py, vayesta/ewf/amplitudes.py"), dict(name="cluster Hamiltonians and solvers", where="vayesta/solver/")],
  tech=MON + "differential monitor: each embedded run is compared with PySCF's unembedded solution of the same mean field",
  note="small systems where the unembedded reference is affordable"),
 dict(id="C04", title="Symmetry-derived fragments equal explicitly computed ones",
  statement="Declaring fragments equivalent by rotation, inversion, mirror, translation or nested combinations gives the same orbitals' span, electron counts, energies, amplitudes and density matrices as solving every fragment explicitly. "
            "A declared symmetry that the system does not have is rejected.",
  over=["inputs", "configurations"], forall="all symmetric systems, operation types and orders, nestings, RHF and UHF, molecules, cells, k-point meshes and lattices",
  tests="Tests use a few fixed symmetric systems along fixed axes; operations in arbitrary frames, nested operations and high angular momenta are never reached.",
  files=["vayesta/core/symmetry/", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py", "vayesta/core/qemb/ufragment.py"],
  mech=[dict(name="symmetry operations on AO coefficients", where="vayesta/core/symmetry/operation.py"), dict(name="parent/child fragment loops", where="vayesta/core/qemb/fragment.py")],
  tech=MON + "differential monitor: the same system run with declared symmetry and with all fragments explicit, orbital spans compared fragment by fragment",
  note="sampled symmetric systems in random frames"),
 dict(id="C05", title="Restricted and unrestricted treatments agree, and spin labels are immaterial",
  statement="A closed-shell system treated with an unrestricted reference made of the same orbitals gives the same clusters, energies, amplitudes and density matrices as the restricted treatment. "
            "Exchanging the spin-up and spin-down labels of an open-shell system exchanges the two spin components of every result and changes nothing else.",
  over=["inputs", "configurations"], forall="all systems, fragmentations, bath types and truncations, solvers and result functions, embedded wave-function and density-matrix embedding",
  tests="The tests store restricted and unrestricted numbers separately for a few systems; nothing compares the two code paths quantity by quantity.",
  files=["vayesta/ewf/", "vayesta/dmet/", "vayesta/core/qemb/", "vayesta/core/bath/", "vayesta/solver/"],
  mech=[dict(name="separate restricted and unrestricted implementations", where="vayesta/ewf/{ewf,uewf,fragment,ufragment,rdm,urdm}.py, vayesta/core/qemb/{qemb,uqemb,fragment,ufragment}.py"), dict(name="unrestricted baths and Hamiltonians", where="vayesta/core/bath/, vayesta/solver/hamiltonian.py")],
  tech=MON + "differential monitor: paired runs (restricted/unrestricted, spin-exchanged) compared result by result",
  note="sampled systems; a pair is skipped when a cluster solver does not converge"),
 dict(id="C06", title="A k-point mean field folded into its supercell is the supercell's own mean field",
  statement="Folding a k-point-sampled Hartree-Fock object gives a supercell object whose overlap, core Hamiltonian, mean-field potential (also for other densities), density, energy and orbital energies are those of the supercell, with real, orthonormal orbitals that diagonalise the Fock matrix, and leaves the k-point object as it was. "
            "The Fourier transformation between primitive-cell and supercell arrays is invertible, uses the supercell's atom order, and refuses to discard an imaginary part. "
            "An embedding on the k-point object therefore gives the same energies per cell as one on the supercell.",
  over=["inputs", "configurations"], forall="all cells, meshes, exchange-divergence treatments, RHF and UHF, 2D and 3D, degenerate or not",
  tests="Tests fold one or two cells with tiny meshes; odd meshes, skewed lattices, degenerate bands and unsorted orbitals are not reached.",
  files=["vayesta/core/foldscf.py", "vayesta/core/qemb/qemb.py"],
  mech=[dict(name="folding and making orbitals real", where="vayesta/core/foldscf.py")],
  tech=MON + "folded objects compared with quantities evaluated in the supercell itself and with a dense reference potential; model Hamiltonians with known spectra for the orbital folding",
  note="up to 6 k-points for full folds, 12 for arrays"),
 dict(id="C07", title="Every integral-transformation route yields the same integrals",
  statement="Two-electron integrals transformed from primitive-cell k-points to supercell orbitals equal the integrals of the supercell, for any mesh, cell shape and dimension, orbital sets, block size, k-pair symmetry and driver, including the negative part of low-dimensional systems. "
            "The blocks of every post-SCF integral container, packed or not, restricted or unrestricted, with frozen orbitals and with a replaced Fock matrix, equal the corresponding blocks of the dense array, and contracting a two-particle density matrix or its intermediates with a container equals the dense contraction. "
            "Building integrals leaves the mean-field object as it was.",
  over=["inputs", "configurations"], forall="all cells, k-point meshes, orbital coefficients, block sizes, drivers, post-SCF methods and density matrices",
  tests="Tests use two cells with one block size; blocks, meshes with three and more points and mixed orbital sets in combination are not reached.",
  files=["vayesta/core/ao2mo/", "vayesta/core/eris.py", "vayesta/core/qemb/uqemb.py"],
  mech=[dict(name="k-AO to Gamma-MO transformation", where="vayesta/core/ao2mo/kao2gmo.py, vayesta/libs/core/src/j3c_kao2gmo.c"), dict(name="integral containers and contractions", where="vayesta/core/ao2mo/{helper,postscf_ao2mo,pyscf_eris}.py, vayesta/core/eris.py")],
  tech=MON + "each route's output compared with a dense reference summed over momentum-conserving k-point quadruples (PySCF four-centre integrals) or over AO integrals",
  note="up to 6 k-points; RHF and UHF, 2D and 3D cells"),
 dict(id="C08", title="The native integral kernels stay in bounds, are race-free and exact",
  statement="For every sequence of valid calls, the C routines behind the k-point integral transformation read and write only the arrays they are given, read no uninitialised memory, free what they allocate, and perform no data race, whatever the number of threads. "
            "Their results equal the defining sums to rounding, independent of threading and scheduling.",
  over=["inputs", "schedules"], forall="all array sizes, k-point meshes, conservation tables, thread counts and schedules",
  tests="Tests call the library with two shapes and look at the result only; a race, an out-of-bounds access or an unset element usually leaves it unchanged.",
  files=["vayesta/libs/core/src/j3c_kao2gmo.c", "vayesta/core/ao2mo/kao2gmo.py"],
  mech=[dict(name="OpenMP loops, work buffers and BLAS calls", where="vayesta/libs/core/src/j3c_kao2gmo.c")],
  tech=MON + "AddressSanitizer, UndefinedBehaviorSanitizer, poisoned and counted allocations and ThreadSanitizer (with an instrumented OpenMP runtime) on the shipped C source, and comparison with NumPy sums, also for the library as built",
  note="small arrays; schedules perturbed by the instrumented runtime"),
 dict(id="C09", title="Wave-function objects describe one state in every representation",
  statement="Converting a wave function between its representations (MP2, CISD, CCSD, up to quadruples, FCI, restricted to unrestricted), rescaling it, rotating its orbitals, packing and unpacking it or copying it describes the same state, and the source is left unchanged. "
            "Its one- and two-particle density matrices, with or without mean-field part, cumulant only, in orbital or AO basis, are those of that state, and projections onto fragments that cover the occupied space add up to the whole.",
  over=["inputs"], forall="all amplitudes, dimensions, spin blocks, projectors and orbital rotations of the supported types",
  tests="Tests use wave functions of two or three molecules, where wrong spin blocks, signs or normalisations of single terms often vanish by symmetry.",
  files=["vayesta/core/types/wf/", "vayesta/core/types/orbitals.py", "vayesta/core/helper.py", "vayesta/core/vpyscf/"],
  mech=[dict(name="amplitude conversions and density matrices", where="vayesta/core/types/wf/*.py, vayesta/core/vpyscf/*.py"), dict(name="packing for transport", where="vayesta/core/helper.py")],
  tech=MON + "every conversion run on random states and compared element by element with an occupation-number (bit-string) reference",
  note="up to 8 orbitals; large blocks sampled"),
 dict(id="C10", title="Cluster Hamiltonians are the full Hamiltonian restricted to the cluster",
  statement="The integrals a fragment hands to its solver are those of the full Hamiltonian in the cluster orbitals, with the one-body part including the mean field (and exchange-divergence correction) of the frozen electrons and any external potential exactly as requested. "
            "This holds whether integrals are four-centre or density-fitted (with negative-definite part, compressed or not), cached or recomputed, for restricted, unrestricted and unequal spin channels, for any sub-cluster, and in the PySCF mean-field objects built from them.",
  over=["inputs", "configurations"], forall="all molecules, cells, lattices, baths, active spaces, fitted or exact integrals, spin treatments and option values",
  tests="Tests see the integrals only through final energies of a few systems; wrong spin blocks, double counting or exchange corrections cancel or stay below their tolerance there.",
  files=["vayesta/solver/hamiltonian.py", "vayesta/core/qemb/qemb.py", "vayesta/core/ao2mo/", "vayesta/solver/_uccsd_eris.py"],
  mech=[dict(name="effective one-body Hamiltonian and integral caches", where="vayesta/solver/hamiltonian.py, vayesta/core/qemb/qemb.py")],
  tech=MON + "integrals, Fock matrices, three-centre integrals and mean-field objects of every cluster compared with dense transformations of AO integrals",
  note="small systems; orbital spaces up to about 20"),
 dict(id="C11", title="Global density matrices and energies do not depend on how they are evaluated",
  statement="The global one-particle density matrix is the same from the fragment-pair algorithm (with or without symmetry, early or late symmetrisation, untruncated overlaps) and from the assembled wave function, it is symmetric and has the number of electrons, and the two-particle one contracts to it. "
            "Democratically partitioned density matrices are the fragment-projected cluster density matrices, energies of every functional equal the contraction of the matching density matrices with the Hamiltonian, and basis and mean-field options only transform the result. "
            "Repeating a call gives the same result even if the caller changed a returned array.",
  over=["inputs", "configurations", "histories"], forall="all systems, truncations, fragmentations, solvers with density matrices, algorithm options, RHF and UHF",
  tests="Tests compare two routes for one molecule at a full bath, where errors in overlaps of truncated clusters or in frozen contributions cannot show.",
  files=["vayesta/ewf/rdm.py", "vayesta/ewf/urdm.py", "vayesta/ewf/ewf.py", "vayesta/core/qemb/rdm.py", "vayesta/core/qemb/qemb.py", "vayesta/ewf/fragment.py"],
  mech=[dict(name="fragment-pair density matrices", where="vayesta/ewf/rdm.py, vayesta/ewf/urdm.py"), dict(name="democratic partitioning", where="vayesta/core/qemb/rdm.py"), dict(name="energy functionals and caching", where="vayesta/ewf/ewf.py, vayesta/core/util.py")],
  tech=MON + "every route evaluated on the same finished calculation and compared with the others and with a dense reconstruction from the cluster states",
  note="small systems with truncated baths"),
 dict(id="C12", title="Cluster solvers return their method's solution of the cluster Hamiltonian",
  statement="The wave function returned by a cluster solver that reports convergence satisfies the defining equations of its method for the cluster Hamiltonian including any external potential: first-order amplitudes for MP2, the eigenvalue equation within its excitation space for CISD and FCI (lowest state), the amplitude equations for coupled cluster and, where solved, its left equations. "
            "Amplitudes, density matrices and energies refer to the cluster orbitals in their given order, for restricted and unrestricted treatments with equal or different numbers of orbitals per spin.",
  over=["inputs", "configurations"], forall="all cluster Hamiltonians (including non-canonical orbitals and external potentials), solver options, spin treatments",
  tests="Tests compare total energies of a few molecules with stored numbers, mostly with canonical orbitals and without external potentials.",
  files=["vayesta/solver/ccsd.py", "vayesta/solver/cisd.py", "vayesta/solver/fci.py", "vayesta/solver/mp2.py", "vayesta/solver/ebcc.py", "vayesta/solver/_uccsd_eris.py", "vayesta/core/types/wf/"],
  mech=[dict(name="solvers and integral interfaces", where="vayesta/solver/*.py")],
  tech=MON + "returned states inserted into the method's equations in an independent determinant-space engine",
  note="clusters of up to 1300 determinants"),
 dict(id="C13", title="Tailored and externally corrected coupled cluster reach their fixed point",
  statement="A coupled-cluster fragment calculation tailored or externally corrected by the wave functions of other fragments solves the amplitude equations with exactly the requested modification: replaced or shifted projected amplitudes, or the triples contribution of the external wave function contracted with the requested integrals. "
            "Corrections from several fragments add independently of their order and of how correction types are combined, use each fragment's amplitudes projected once, and a correction from an identical calculation leaves the result unchanged.",
  over=["inputs", "configurations"], forall="all correction modes, projectors, fragment sets, cluster orbitals, spin treatments and combinations of corrections",
  tests="Tests run a few corrections of one or two molecules against stored energies; combinations, truncated overlaps and wrong projections are not seen.",
  files=["vayesta/solver/tccsd.py", "vayesta/solver/coupling.py", "vayesta/solver/ccsd.py", "vayesta/ewf/fragment.py"],
  mech=[dict(name="corrections of the coupled-cluster residual", where="vayesta/solver/coupling.py, vayesta/solver/ccsd.py")],
  tech=MON + "converged amplitudes inserted into independently written corrected equations in a determinant-space engine",
  note="small clusters; judged at converged fixed points"),
 dict(id="C14", title="Lattice models are the Hubbard Hamiltonians they describe",
  statement="The hopping of a lattice model connects exactly the nearest neighbours given by its site coordinates and lattice vectors with the phases of its boundary conditions, for any size, tiling or site order, and interaction integrals, mean-field potentials, fitted integrals and energies are those of the model. "
            "Translation-derived fragments reproduce explicitly treated ones, and the thermodynamic-limit reference values obey the exact Bethe-ansatz integrals.",
  over=["inputs", "configurations"], forall="all lattice sizes, tilings, orders, boundary conditions, fillings and interaction strengths",
  tests="Tests use square lattices with equal boundary conditions and a few chains.",
  files=["vayesta/lattmod/latt.py", "vayesta/lattmod/bethe.py"],
  mech=[dict(name="lattice molecules and mean fields", where="vayesta/lattmod/latt.py"), dict(name="Bethe ansatz", where="vayesta/lattmod/bethe.py")],
  tech=MON + "Hamiltonian rebuilt from coordinates and lattice vectors, analytic band structures, independent quadrature and exact diagonalisation",
  note="up to 48 sites"),
 dict(id="C15", title="RPA energies, excitations and moments equal the dense linear-response result",
  statement="RPA excitation energies, amplitudes, correlation energies and density-response moments are those of the dense linear-response matrices built from orbital energies, Coulomb integrals and the supplied kernel, for restricted and unrestricted references, scaled interactions and restricted excitation spaces. "
            "The density-fitted implementation gives the same moments (also for target rotations), energies and gap within its quadrature error, with or without negative auxiliary part, given integrals, low-rank kernels, compression and choice of quadrature.",
  over=["inputs", "configurations"], forall="all stable references, kernels, interaction strengths, fitted or exact integrals, options of the quadrature",
  tests="Tests compare stored numbers for a few molecules without kernels, scaling, negative fitting parts or compression.",
  files=["vayesta/rpa/ssrpa.py", "vayesta/rpa/ssurpa.py", "vayesta/rpa/rpa.py", "vayesta/rpa/rirpa/"],
  mech=[dict(name="dense RPA", where="vayesta/rpa/ssrpa.py, vayesta/rpa/ssurpa.py"), dict(name="quadrature-based RPA moments and energies", where="vayesta/rpa/rirpa/*.py")],
  tech=MON + "returned quantities inserted into or compared with independently assembled dense linear-response matrices",
  note="up to about 200 excitations"),
 dict(id="C16", title="Screened cluster interactions and RPA corrections equal dense linear response",
  statement="Moment-conserving screening replaces the particle-hole interaction of every cluster by the one whose RPA response within the cluster has the zeroth moment of the full system, and static constrained-RPA screening adds the response of all other excitations (optionally only in the particle-hole channel, or with polarisability coupling). "
            "Solvers work with these interactions and a consistent effective one-electron Hamiltonian while projected energies use bare interactions, for restricted and unrestricted, molecular and periodic systems. The nonlocal correction is the total RPA (or cumulant) energy minus the projected RPA energies of all clusters, and vanishes for complete clusters.",
  over=["inputs", "configurations"], forall="all systems with density fitting, fragmentations, baths, screening options, spin treatments",
  tests="Tests compare total energies of two or three molecules with stored numbers; truncated clusters, other screening options and the matching of the Fock matrix are not seen.",
  files=["vayesta/core/screening/", "vayesta/solver/hamiltonian.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/fragment.py"],
  mech=[dict(name="moment-conserving and constrained-RPA screening", where="vayesta/core/screening/*.py"), dict(name="screened cluster Hamiltonian, local RPA energies", where="vayesta/solver/hamiltonian.py"), dict(name="RPA correction", where="vayesta/core/qemb/qemb.py")],
  tech=MON + "screened integrals and energies captured from running calculations compared with dense linear response; states inserted into the screened Hamiltonian",
  note="up to about 200 excitations; one known finding (FCI with polarisability coupling)"),
 dict(id="C17", title="Triples, inter-cluster MP2 and finite-bath corrections equal dense theory",
  statement="The CCSD(T) correction is the sum over fragments of the connected-triples energy of each cluster's amplitudes with one occupied index projected onto the fragment, and equals PySCF's CCSD(T) for complete clusters. "
            "The inter-cluster MP2 energy equals the sum over ordered fragment pairs of the direct and exchange MP2 terms with its double-counting projections (the full MP2 energy for complete spaces without projection, zero outside complete clusters), and the finite-bath correction equals the difference of projected MP2 energies with complete and truncated bath. "
            "All agree between restricted and unrestricted treatments of closed shells and between symmetry-derived and explicit fragments.",
  over=["inputs", "configurations"], forall="all systems, fragmentations, baths, thresholds, projections, spin treatments and symmetry settings",
  tests="Tests compare (T) for H2 chains, where it is nearly trivial, and stored numbers of the MP2 corrections for water and a chain.",
  files=["vayesta/ewf/ccsd_t.py", "vayesta/ewf/icmp2.py", "vayesta/ewf/ewf.py", "vayesta/core/bath/bno.py"],
  mech=[dict(name="projected triples", where="vayesta/ewf/ccsd_t.py"), dict(name="inter-cluster MP2", where="vayesta/ewf/icmp2.py"), dict(name="finite-bath correction", where="vayesta/ewf/ewf.py, vayesta/core/bath/bno.py")],
  tech=MON + "energies of running embeddings recomputed from dense spin-orbital formulas, with memory pressure injected into the bath construction",
  note="clusters up to about 10 orbitals for (T)"),
 dict(id="C18", title="Self-consistent embedding, DMET and chemical potentials reach their fixed points",
  statement="Brueckner and projected-DMET self-consistency update the orbitals exactly by the singles amplitudes or to the dominant natural orbitals of the embedded density matrix, keep them orthonormal, report the determinant-plus-correlation energy (per cell) of every iteration starting with the one-shot energy, and when converged leave a state that a fresh embedding reproduces. "
            "Optimised global and per-fragment chemical potentials make the embedded electron number the requested one, with cluster states that are ground states in that potential. "
            "DMET's energy is the democratically partitioned energy of such clusters per cell with the electron number conserved, its converged local density matrices agree with those of the mean field, and the caller's mean field is never modified.",
  over=["histories", "inputs", "configurations"], forall="all iteration histories, extrapolation and damping settings, systems, fragmentations, spin treatments",
  tests="Tests compare final energies of H2, water and Hubbard models with stored numbers; intermediate updates, periodic energies and the fixed-point conditions are not examined.",
  files=["vayesta/core/scmf/", "vayesta/core/qemb/qemb.py", "vayesta/misc/cptbisect.py", "vayesta/solver/solver.py", "vayesta/dmet/"],
  mech=[dict(name="self-consistent mean field", where="vayesta/core/scmf/*.py"), dict(name="chemical potentials", where="vayesta/core/qemb/qemb.py, vayesta/misc/cptbisect.py, vayesta/solver/solver.py"), dict(name="DMET", where="vayesta/dmet/*.py")],
  tech=MON + "trace of every mean-field update and chemical potential recorded and checked against dense recomputation; final states compared with fresh embeddings and independent FCI",
  note="up to about 10 orbitals per cluster; one known finding (extrapolation of singles amplitudes)"),
 dict(id="C19", title="Correlation functions and populations are expectation values of the states",
  statement="Atomic charge-charge, charge-fluctuation and spin-spin correlation functions equal the expectation values of the atoms' number and spin operators in the mean-field, embedded or supplied density matrices, with or without the independent-particle part of the 2-DM, for any selection of atoms, projection, orbital filter and symmetry setting, and leave supplied matrices unmodified. "
            "They equal the correlation functions of the full wave function for complete baths, sum to the total operators' values, and agree between restricted and unrestricted treatments of closed shells and between symmetry-derived and explicit fragments. "
            "Populations (Lowdin, Mulliken, IAO+PAO, or any orbitals) are the traces over the local orbitals, sum to the number of electrons, give the atomic charges and spins, and are what population files contain.",
  over=["inputs", "configurations"], forall="all systems, states, density matrices, atoms, projections, fragmentations, baths, spin treatments",
  tests="Tests compare correlation functions of three systems with stored numbers and with sums over their own projectors; populations are only compared for one cell.",
  files=["vayesta/core/qemb/corrfunc.py", "vayesta/misc/corrfunc.py", "vayesta/core/qemb/qemb.py", "vayesta/core/qemb/uqemb.py", "vayesta/ewf/fragment.py", "vayesta/ewf/ufragment.py", "vayesta/dmet/dmet.py"],
  mech=[dict(name="embedded correlation functions", where="vayesta/core/qemb/corrfunc.py"), dict(name="pair functions of density matrices", where="vayesta/misc/corrfunc.py"), dict(name="population analysis and files", where="vayesta/core/qemb/qemb.py, vayesta/core/qemb/uqemb.py")],
  tech=MON + "number and spin operators applied to CI vectors and dense contractions of captured density matrices as oracles; written files parsed back",
  note="unrestricted charge correlation functions are not implemented"),
 dict(id="C20", title="Multi-level embedding combines its levels consistently",
  statement="Secondary fragments (a cheaper solver in a larger bath, coupled to a parent and subtracted in the parent's bath) change every result by exactly the difference between the two independent single-level embeddings, whether they are declared by bath options, a factor or separate thresholds, with or without symmetry, for energies, corrections and density matrices. "
            "Fragment contributions are linear in their wave-function factor and symmetry factor. "
            "Auxiliary, inactive or screening-only fragments leave energies, density matrices and amplitudes unchanged.",
  over=["inputs", "configurations"], forall="all systems, solver pairs, thresholds, symmetry declarations and weights, restricted and unrestricted",
  tests="One stored energy of one molecule covers secondary fragments; their density matrices, corrections and symmetry children are not tested.",
  files=["vayesta/core/qemb/fragment.py", "vayesta/core/qemb/ufragment.py", "vayesta/core/qemb/qemb.py", "vayesta/ewf/"],
  mech=[dict(name="secondary fragments and flags", where="vayesta/core/qemb/fragment.py"), dict(name="fragment factors in energies and density matrices", where="vayesta/ewf/fragment.py, vayesta/ewf/rdm.py, vayesta/ewf/urdm.py, vayesta/core/qemb/rdm.py")],
  tech=MON + "differential monitor: a multi-level embedding against the linear combination of independent single-level embeddings of the same mean field",
  note="FCI secondaries are not supported by the code; symmetry factors judged for functionals that are sums over fragments"),
 dict(id="C21", title="Results depend on the final configuration, not on the history",
  statement="After any history of calculations, queries, overwritten return values, changed options, resets (also partial ones), fragments added later, failed solvers or baths, and mean-field updates, running an embedding gives the results of a new embedding in the same final configuration. "
            "Asking again gives the same answer, the order of fragments does not matter, several embeddings of one mean field do not affect each other, "
            "and neither the caller's mean field nor the option dictionaries passed in, nor the options of other fragments and embeddings, are modified.",
  over=["histories", "configurations", "fault_sequences"], forall="all sequences of operations on embeddings (EWF, DMET), restricted and unrestricted, with and without symmetry",
  tests="Tests build an object, run it once and compare numbers; reuse, failure and sharing are not tested.",
  files=["vayesta/core/qemb/", "vayesta/ewf/ewf.py", "vayesta/dmet/dmet.py", "vayesta/core/util.py"],
  mech=[dict(name="resets and caches", where="vayesta/core/qemb/fragment.py, vayesta/ewf/ewf.py, vayesta/core/util.py"), dict(name="options", where="vayesta/core/util.py, vayesta/core/qemb/qemb.py")],
  tech=MON + "random histories with injected failures on one object; every observable compared with that of a new object in the final configuration",
  note="the new object's results are judged by the other properties"),
 dict(id="C22", title="Electron-boson clusters, their exact solution, and EDMET",
  statement="For any coupled electron-boson problem, restricted or unrestricted, the electron-boson FCI solver returns an eigenstate of the stated Hamiltonian in the truncated boson space (the ground state), and its one- and two-particle and electron-boson density matrices and density-density moments are those of this state. "
            "A cluster with bosons solves the effective cluster Hamiltonian plus the given frequencies and couplings; the polaritonic shift changes neither energies nor density matrices when the boson space is converged, also in open shells, with external potentials, with coupled-cluster solvers and for exactly solvable (number-coupled) bosons. "
            "Quasi-bosons of the RPA bath and of EDMET are orthonormal excitations outside the cluster, truncated by the singular values of its coupling to the environment; with all bosons retained the electron-boson Hamiltonian of EDMET reproduces the RPA response of the full system within the cluster, its energy is the stated sum of local, electron-boson and nonlocal parts, a fragment that is the whole system gives full configuration interaction, and repeated, reordered and unrestricted calculations agree.",
  over=["inputs", "configurations", "histories"], forall="all fermionic and bosonic Hamiltonians, numbers of electrons, bosons and quanta, molecules and lattices, fragments, bosonic interactions (direct, xc, qba with and without boson exchange), truncations, with and without density fitting, restricted and unrestricted",
  tests="Tests compare EDMET energies of two or three systems with stored numbers; couplings, shifts and electron-boson density matrices are never compared with an independent description.",
  files=["vayesta/edmet/", "vayesta/solver/eb_fci/", "vayesta/solver/hamiltonian.py", "vayesta/core/bosonic_bath/", "vayesta/solver/ebcc.py"],
  mech=[dict(name="electron-boson FCI", where="vayesta/solver/eb_fci/"), dict(name="polaritonic shift", where="vayesta/solver/hamiltonian.py: EB_RClusterHamiltonian, EB_UClusterHamiltonian"), dict(name="boson construction", where="vayesta/edmet/fragment.py, ufragment.py, vayesta/core/bosonic_bath/")],
  tech=MON + "solver states, Hamiltonians, density matrices, moments, boson coefficients and energies observed on running electron-boson calculations and compared with dense diagonalisation and dense linear response",
  note="ebcc as given (open shells not used with it); one-shot EDMET; exchange sign convention of projected_interactions not judged"),
 dict(id="C23", title="Structure builders, analysis tools and array helpers give what they name",
  statement="For any input: a cube file written for a molecule or cell describes the cell, atoms, grid and values of the requested orbitals and densities in its units; atom shells and distances are those of the nearest periodic images; a counterpoise molecule contains the real atom (or fragment) and exactly the ghost centres within the radius, with their basis functions, without periodicity; "
            "structure builders return the named composition with the bond lengths, angles, lattice vectors, scale and supercell asked for; spin-spin, number and charge correlation functions of given density matrices and projectors are the expectation values; equation-of-state fits recover the parameters of exact data; "
            "the recursive block SVD spans the coupling space order by order; and contraction, packing, stacking, sparse and orbital helpers agree with their definitions for any shapes and spins.",
  over=["inputs", "configurations"], forall="all molecules and cells, dimensions, radii, units, fragments, structure parameters, density matrices, projectors, data sets, matrices, index strings, array shapes",
  tests="Tests evaluate a few helpers at one shape and never call the cube writer for cells, the counterpoise builders, most structure builders or the fits.",
  files=["vayesta/misc/", "vayesta/tools/", "vayesta/core/helper.py", "vayesta/core/util.py", "vayesta/core/linalg.py", "vayesta/core/types/orbitals.py"],
  mech=[dict(name="cube files", where="vayesta/misc/cubefile.py"), dict(name="counterpoise and shells", where="vayesta/misc/counterpoise.py, vayesta/misc/gto_helper.py"), dict(name="array helpers", where="vayesta/core/helper.py, vayesta/core/util.py")],
  tech=MON + "results of the real helpers, files they write and molecules they build observed over random calls and recomputed from their definitions (geometry, exact expectation values, dense numpy contractions)",
  note="basis functions, cells and molecules of PySCF as given"),
]
NOT_APPLICABLE = []
