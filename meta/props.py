"""What each property says and how it is decided.  `gen.py` writes
properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique, how,
      note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      quant=quant, why=why, files=files, mech=mech,
                      technique=technique, how=how, note=note,
                      observe=list(observe)))


GR = 'lambeq/backend/grammar.py'
TE = 'lambeq/backend/tensor.py'
QU = 'lambeq/backend/quantum.py'
TK = 'lambeq/backend/converters/tk.py'
PL = 'lambeq/backend/pennylane.py'

P('G01', 'Types and diagrams obey the laws of a strict monoidal category',
  'Types form a free monoid under tensor with adjoints (rotation by z and '
  'back is the identity, rotation reverses products, slicing and indexing '
  'agree with the list of wires), and equal types hash equally. Diagrams '
  'built by composition, tensor, dagger, rotation and slicing always have '
  'matching layers, are refused exactly when boundaries do not match, obey '
  'associativity, identity, involution and interchange-up-to-meaning laws, '
  'and denote the composite of the meanings of their parts. Copying and '
  'pickling give equal values, and no operation changes its operands.',
  ['inputs', 'programs'],
  'all types with rotations in -3..3 and all programs of compositions, '
  'tensors, daggers, rotations and slices over boxes, words, cups, caps, '
  'swaps and spiders',
  'The tests build a few fixed diagrams of at most three boxes; they do not '
  'compose operations, mix adjoints with slices or check a meaning.',
  [GR, 'lambeq/core/utils.py'],
  [('Ty/Box/Diagram/Layer operators', GR), ('fast_deepcopy',
                                           'lambeq/core/utils.py')],
  'property-based testing: algebraic laws and a tensor reference model',
  'Random types and random diagram programs are built both as lambeq objects '
  'and as plain data; every operation is compared with the same operation on '
  'the plain data (a list-of-wires / list-of-layers model), and the meaning '
  'of the result (a numpy tensor with self-dual wires) with the composite of '
  'the meanings.',
  'Up to 8 layers and 6 wires per case; thousands of cases per run. Trusts '
  'the plain-data model and numpy einsum.')

P('G02', 'JSON encodings of grammar entities are faithful',
  'Encoding any type, box, word, layer, frame or diagram to JSON text and '
  'decoding it gives an equal entity of the same class, whatever the names, '
  'rotations and nesting. The encoding is plain JSON data, is a function of '
  'the entity alone, and decoding leaves its input intact.',
  ['inputs'], 'all entities of the grammar category, with arbitrary unicode '
  'names and nested frames',
  'The tests encode one sentence diagram and one frame.',
  [GR], [('Entity.to_json / from_json', GR)],
  'property-based testing: round trip',
  'Random entities with nested frames are encoded, passed through '
  'json.dumps/loads, decoded and compared field by field with the plain-data '
  'model, not only with ==.',
  'Frames nest to depth 2.')

P('G03', 'Functors preserve the structure of diagrams',
  'Applying a functor to a diagram gives a well-formed diagram whose '
  'boundaries are the images of the boundaries, commutes with composition, '
  'tensor, dagger and adjoints, maps cups, caps, swaps and spiders to those '
  'of the image types, and denotes the diagram with each generator replaced '
  'by its image. An image of the wrong type is refused every time, not only '
  'at first sight.',
  ['inputs', 'histories'], 'all assignments of types (including the unit and '
  'products) to atoms and of diagrams to boxes, and all diagrams',
  'The tests use one functor with single-wire images.',
  [GR], [('Functor.__call__ and the apply_functor methods', GR)],
  'property-based testing: homomorphism laws and a tensor reference model',
  'Random object maps (0-2 wires per atom) and box maps are applied to '
  'random diagrams; results are compared with applying the functor to the '
  'parts and with the tensor meaning computed on plain data.',
  'Images are up to 2 wires wide.')

P('G04', 'Snake removal and normal forms keep the meaning and are complete',
  'Removing snakes and normalising a diagram keep its boundaries and its '
  'meaning. Afterwards no cap is yankable by a cup along a wire, the normal '
  'form is idempotent and does not depend on the order of independent boxes '
  'in a connected diagram, and the pregroup normal form puts words before '
  'cups on the same sentence.',
  ['inputs'], 'all planar diagrams of boxes, words, cups, caps, swaps and '
  'spiders',
  'The tests straighten two fixed snakes.',
  [GR, 'lambeq/backend/snake_removal.py'],
  [('remove_snakes', GR), ('snake_removal', 'lambeq/backend/'
                           'snake_removal.py'), ('normal_form', GR),
   ('pregroup_normal_form', GR)],
  'property-based testing: metamorphic interchange and a tensor oracle',
  'Random cap-then-cup diagrams are normalised; the tensor meaning is '
  'compared before and after; a wire-tracing oracle on the plain data looks '
  'for a yankable pair that is left; random legal interchanges of the '
  'diagram must normalise to the same form.',
  'Up to 11 layers.')

P('G05', 'Cups, caps, swaps, spiders, permutations and currying are sound',
  'Cups, caps, swaps, spiders and permutations on products of types have the '
  'announced boundaries and denote the nested caps, symmetries and copy '
  'tensors; adjoint pairs that do not match are refused. Cups and caps '
  'satisfy the snake equations, and currying a diagram bends the requested '
  'wires and nothing else, so that uncurrying gives the same meaning.',
  ['inputs'], 'all products of up to three wires with rotations, all '
  'permutations, all numbers of curried wires on both sides',
  'The tests use types of one or two wires.',
  [GR], [('Diagram.cups/caps/swap/spider/permutation', GR),
         ('Diagram.curry, to_left/to_right builders', GR)],
  'property-based testing: tensor reference model',
  'The factory methods are run on random types and the results compared with '
  'delta/permutation tensors built directly.',
  'Types up to 3 wires, permutations up to 6.')

P('G06', 'Pregroup diagrams built from words and cups are what was asked',
  'A diagram built from a list of words and a list of cups and swaps has the '
  'words in order, a cup for every requested pair of adjacent wires and the '
  'remaining wires as its codomain, and is refused if a pair is not '
  'adjacent or does not contract. Recognition of pregroup diagrams accepts '
  'exactly words followed by cups and swaps.',
  ['inputs'], 'all planar matchings of wires divided among words in any way',
  'The tests build two sentences.',
  [GR], [('Diagram.create_pregroup_diagram', GR), ('Diagram.is_pregroup',
                                                   GR)],
  'property-based testing: reference model of the wire list',
  'Random matchings are turned into words and cup indices; the layers are '
  'replayed on a model list of wires.',
  'Swaps are between wires of one type only.')

P('T01', 'Tensor diagrams evaluate to the tensor they denote',
  'Evaluating a tensor diagram gives, with every supported numerical backend '
  'and contraction method, the array obtained by contracting its boxes one '
  'layer at a time, and evaluation respects composition, tensor, dagger, '
  'rotation and transposition. Boxes compare equal exactly when name, type, '
  'rotation and data agree.',
  ['inputs', 'configurations'], 'all diagrams of boxes, cups, caps, swaps '
  'and spiders over dimensions 1..4, daggered and rotated, with NumPy, JAX '
  'and PyTorch',
  'The tests evaluate single boxes of dimension 2 with NumPy.',
  [TE, 'lambeq/backend/numerical_backend.py'],
  [('Diagram.eval / to_tn', TE), ('Box.array, dagger, rotate', TE)],
  'property-based testing: differential with a layer-by-layer numpy model',
  'Random diagrams with random complex data are evaluated by lambeq '
  '(TensorNetwork) and by a small einsum interpreter of the plain data; laws '
  'and the three backends are compared with it.',
  'Tolerance 1e-8 (float64) or 1e-4 (float32).')

P('T02', 'Substituting parameters in tensor diagrams gives the bound diagram',
  'The free symbols of a diagram are exactly those in its boxes, and a '
  'lambdified diagram given values for the symbols in any order is the '
  'diagram with those values times the scale of each occurrence, with the '
  'same structure, daggers and rotations. Scaled symbols obey arithmetic and '
  'keep their identity when sorted, hashed, pickled or printed.',
  ['inputs'], 'all diagrams with concrete and symbolic boxes, all orders and '
  'supersets of symbols',
  'The tests substitute two symbols in one diagram.',
  [TE, 'lambeq/backend/symbol.py'],
  [('Diagram.lambdify, free_symbols', TE), ('Symbol', 'lambeq/backend/'
                                            'symbol.py')],
  'property-based testing: commutation of substitution with evaluation',
  'A concrete diagram is abstracted by symbols; lambdify with the original '
  'data must give it back (data, structure and value).', '')

P('T03', 'The numerical backend follows the nesting of contexts',
  'Inside a backend context the chosen backend is in force, and leaving the '
  'context by any route restores the one before it; unknown backends are '
  'refused without effect.',
  ['programs'], 'all nestings of contexts, set_backend calls and exceptions',
  'The tests enter one context.',
  ['lambeq/backend/numerical_backend.py'],
  [('backend, set_backend, get_backend', 'lambeq/backend/'
    'numerical_backend.py')],
  'property-based testing: stack model over random programs',
  'Random programs of nested contexts are run against a stack.',
  'One thread; TensorFlow is not installed.')

P('Q01', 'Pure circuits evaluate to the product of their gates',
  'Evaluating a circuit of gates, controlled gates, kets, bras, scalars, '
  'cups, caps and swaps gives the product of the textbook matrices, and '
  'daggers, rotations, controls at any distance and symbols respect it. The '
  'fluent gate methods put each gate on the qubits they name, and '
  'substituting values for symbols commutes with evaluation.',
  ['inputs'], 'all circuits over the gate set, all controls and distances, '
  'all phases',
  'The tests compare a handful of gates with literal matrices.',
  [QU], [('Box.array and gate classes', QU), ('Diagram.eval, '
                                              'apply_gate', QU)],
  'property-based testing: differential with textbook matrices',
  'Random circuits are evaluated by lambeq and by a numpy state-vector '
  'interpreter that knows textbook matrices only.', '')

P('Q02', 'Mixed circuits evaluate to the channel they denote',
  'Evaluating a circuit with measurements, encodings, discards, mixed '
  'states, classical gates and bits gives the completely positive map '
  'obtained by doubling the pure parts, and evaluation respects '
  'composition, tensor and dagger.',
  ['inputs'], 'all mixed circuits on up to four qubits and bits',
  'The tests evaluate a few single-qubit channels.',
  [QU], [('to_tn(mixed=True), Measure, Encode, Discard, MixedState', QU)],
  'property-based testing: differential with a density-matrix interpreter',
  'Random mixed circuits are compared with a numpy interpreter of density '
  'tensors.', '')

P('Q03', 'Conversion to and from tket keeps the meaning of a circuit',
  'A circuit converted to tket denotes, after its recorded post-selection '
  'and scale, the same state, channel or distribution, with bits in the '
  'order of the measured qubits; converting back gives the same meaning. '
  'Symbols stay parameters with the same scale, and circuits made by tket '
  'are imported with their meaning.',
  ['inputs'], 'all circuits over the supported gate set with kets, bras, '
  'swaps, controls, discards and measurements',
  'The tests compare the conversion of a few circuits with literal command '
  'lists.',
  [TK, QU], [('to_tk, from_tk', TK), ('to_circuital', QU)],
  'property-based testing: round trip and differential evaluation',
  'The exported tket circuit is simulated by a numpy interpreter of its '
  'command list and compared with the reference evaluation of the lambeq '
  'circuit; symbols are bound before and after conversion.',
  'Post-selected and discarded qubits are not mixed in one circuit with '
  'several bits (known finding).')

P('Q04', 'Putting a circuit in circuital form keeps its meaning',
  'The circuital form of a circuit has all preparations first, then gates '
  'and swaps, then post-selections, discards and measurements, the same '
  'boundaries, and the same value.',
  ['inputs'], 'all circuits with kets and bras anywhere, nested controls and '
  'swaps',
  'The tests convert three circuits.',
  [QU], [('to_circuital', QU)],
  'property-based testing: differential evaluation',
  'Random circuits with kets and bras in the middle are compared with their '
  'circuital form, both by reference evaluation.', '')

P('Q05', 'PennyLane circuits compute what the lambeq circuit denotes',
  'A circuit converted to PennyLane gives the state, probabilities or '
  'density matrix of the lambeq circuit, with post-selection, scalars, '
  'discards, swaps and every supported gate, before and after binding '
  'symbols, and after copying or pickling.',
  ['inputs', 'configurations'], 'all circuits over the supported gate set, '
  'with probabilities on or off',
  'The tests use one sentence circuit per ansatz.',
  [PL], [('to_pennylane, PennyLaneCircuit', PL)],
  'property-based testing: differential evaluation',
  'Random circuits are run on the default.qubit simulator through lambeq and '
  'compared with the numpy reference.', 'Only the exact simulators.')

P('Q07', 'Shot-based backends give the selected and normalised distribution',
  'Running circuits on a shot-based backend, by eval, get_counts or '
  'TketModel, submits each circuit once with the configured number of shots '
  'and gives the distribution of its measured bits in order, restricted to '
  'the post-selected outcomes, multiplied by the recorded scale and '
  'normalised exactly when asked. Models give a normalised distribution of '
  'the output for the current weights and do not change their diagrams.',
  ['inputs', 'configurations'], 'all lists of circuits with measurements or '
  'post-selections, all options, and all weights',
  'The tests run one sentence circuit on a mock backend.',
  [QU, TK, 'lambeq/training/tket_model.py'],
  [('eval(backend=), get_counts', QU),
   ('TketModel', 'lambeq/training/tket_model.py')],
  'property-based testing: differential with a stand-in exact backend',
  'A stand-in backend returns the exact distribution of the tket circuit it '
  'receives as counts and records calls; results are compared with the numpy '
  'reference of the lambeq circuit. A second check uses seeded Aer.',
  'Circuits with discards next to post-selections have a known finding.')

AN = 'lambeq/ansatz/'
P('A01', 'Circuit ansätze give the parametrised circuit they describe',
  'A circuit ansatz maps each type to the configured number of qubits and '
  'each word or box to the documented layout of gates, with one parameter '
  'per documented rotation named after the box and its type, equal for equal '
  'boxes and distinct for distinct ones, with extra qubits post-selected or '
  'discarded as configured. The circuit of a diagram denotes the diagram with '
  'these circuits as boxes, and frames are refused.',
  ['inputs', 'configurations'], 'all diagrams, all ansätze, maps of types, '
  'numbers of layers and of single-qubit parameters, and options',
  'The tests compare one circuit per ansatz with a literal.',
  [AN + 'circuit.py', AN + 'base.py'],
  [('IQPAnsatz, Sim4/9/9Cx/14/15Ansatz, StronglyEntanglingAnsatz',
    AN + 'circuit.py'), ('BaseAnsatz, Symbol naming', AN + 'base.py')],
  'property-based testing: differential with reference layouts',
  'Random diagrams are converted; parameters are bound to random numbers and '
  'the circuit is evaluated by the numpy interpreter and compared with the '
  'meaning of the diagram whose boxes are interpreted by independent '
  'reference layouts.', 'At most 6 qubits.')

P('A02', 'Tensor ansätze give the tensor network they describe',
  'A tensor ansatz maps each type to the configured dimensions and each box '
  'to one tensor or to the factors of an MPS or spider decomposition, whose '
  'sizes respect the bond dimension and the maximal order, and whose '
  'symbols are named after the box, equal exactly for equal boxes. The '
  'result has the boundaries of the image, denotes the diagram with each '
  'box replaced by its decomposition, and frames are refused.',
  ['inputs', 'configurations'], 'all diagrams, maps of types to dimensions, '
  'bond dimensions and orders',
  'The tests convert one sentence per ansatz.',
  [AN + 'tensor.py', AN + 'base.py'],
  [('TensorAnsatz, MPSAnsatz, SpiderAnsatz', AN + 'tensor.py')],
  'property-based testing: tensor reference model',
  'Random diagrams are converted; symbols are bound to random arrays, and '
  'the tensor network is evaluated and compared with the meaning of the '
  'diagram under reference decompositions.', '')

RW = 'lambeq/rewrite/'
P('R01', 'Rewrite rules replace exactly the matching words by their meaning',
  'The rewriter replaces each word that matches one of its rules (by type '
  'and listed words, whatever the case) by the diagram of the first such '
  'rule, wherever and however rotated it occurs, and leaves everything else '
  'and the boundaries as they were: the result denotes the sentence with '
  'those words replaced by their stated meanings. Coordination, currying, '
  'collapsing of domains, unknown words and simple user rules likewise '
  'replace what they announce and keep the meaning.',
  ['inputs', 'configurations'], 'all diagrams and selections and orders of '
  'rules and of listed words',
  'The tests rewrite one or two sentences for each rule.',
  [RW + 'base.py'], [('Rewriter and the RewriteRule classes', RW + 'base.py')],
  'property-based testing: tensor reference model of each rule',
  'Random diagrams with matching and non-matching words, rotations, daggers '
  'and cups are rewritten; the tensor meaning of the result is compared with '
  'the meaning of the input in which matching words carry the tensor stated '
  'for the rule.', '')

P('R02', 'Diagram rewriters keep meaning and produce the form they promise',
  'Removing cups keeps the meaning of a diagram with boxes bent accordingly, '
  'and leaves no cup between words of a planar sentence without loops; '
  'unifying codomains gives every diagram the requested output by one added '
  'box exactly when needed; removing swaps removes the swaps of a pregroup '
  'sentence by moving or merging words and keeps the links between the rest.',
  ['inputs'], 'all pregroup sentences, planar and not, and other diagrams',
  'The tests rewrite three sentences.',
  [RW + 'diagram.py', RW + 'base.py'],
  [('RemoveCupsRewriter, RemoveSwapsRewriter, UnifyCodomainRewriter',
    RW + 'diagram.py')],
  'property-based testing: tensor oracle and a model of links',
  'Random sentences are rewritten and the tensor meaning, the number of cups '
  'and swaps, the order of words and the pairs of linked wires are compared '
  'with a plain model.', '')

TD = 'lambeq/text2diagram/'
P('C01', 'CCG types print, parse and translate faithfully',
  'Printing a CCG type and parsing the text gives it back; every text is '
  'parsed as the documented grammar says, with atoms mapped as requested, or '
  'refused with CCGParseError. Replacement of subtypes and of the innermost '
  'result, isolation of a result and the translation to pregroup types '
  '(X/Y to X Y.l and X\\Y to Y.r X) do what they document for every '
  'type, including types that contain the empty type.',
  ['inputs'], 'all CCG types and all texts, well-formed or not',
  'The tests parse five malformed texts and replace in two types.',
  [TD + 'ccg_type.py'], [('CCGType', TD + 'ccg_type.py')],
  'property-based testing: round trip and a reference parser',
  'Random types are printed, damaged and parsed by lambeq and by a reference '
  'recursive-descent parser; replacement and splitting are compared with '
  'plain-data definitions.', '')

P('C02', 'CCG rules are inferred, resolved and drawn as the calculus says',
  'The rule inferred for given categories is one that takes them to the '
  'given result, and is unknown only when there is none. The diagram of a '
  'rule has the translated categories as boundaries, consists of cups, caps '
  'and swaps only, and links exactly the cancelled wires. Resolving a rule '
  'for a result returns the original categories when the result is the '
  'original one and otherwise categories to which the rule applies with that '
  'result, and wrong uses raise CCGRuleUseError.',
  ['inputs'], 'all instances of application, composition, crossed and '
  'generalised composition, type raising, punctuation and conjunction, and '
  'near misses',
  'The tests have one instance per rule with atomic categories.',
  [TD + 'ccg_rule.py'], [('CCGRule.infer_rule, resolve, apply',
                          TD + 'ccg_rule.py')],
  'property-based testing: rule schemata as reference, wire tracing',
  'Random instances of every rule schema and mutations of them are checked '
  'against the schemata, and the wires of the diagram are traced.',
  'Generalised rules up to 3 arguments.')

P('C03', 'CCG derivations become the diagrams they describe',
  'The diagram of a derivation has its words in order with the resolved '
  'types, the translated category as output, and wires linked exactly as the '
  'rules cancel them, also through unary rules, conjunctions and type '
  'raising. Planar diagrams have the same links and no swap, and are refused '
  'only for unary rules that change direction. Derivations survive JSON; '
  'removing trivial unary rules and collapsing noun phrases changes nothing '
  'else.',
  ['inputs'], 'all derivations over all rules, with or without collapsed '
  'noun phrases, planar or not',
  'The tests convert about 25 fixed derivations of two or three words.',
  [TD + 'ccg_tree.py'], [('CCGTree.to_diagram, _resolved, to_json, '
                          'from_json, without_trivial_unary_rules',
                          TD + 'ccg_tree.py')],
  'property-based testing: generated derivations with reference wiring',
  'Random derivations are generated from the goal downwards together with '
  'the category every node must resolve to; the links of all wires are '
  'computed on plain data and compared with those traced in the diagram.',
  'Type changes above derived phrases are generated only where the new type '
  'has the shape the rule needs.')

P('C04', 'CCGBank files are read as the derivations they hold',
  'Every derivation written in the CCGBank format is read as a tree with '
  'the same words, categories and structure and a rule that applies; '
  'malformed derivations and identifiers raise CCGBankParseError naming the '
  'file and line, or give None when errors are suppressed, without affecting '
  'the others. Sections give all derivations of all files in order, as trees '
  'or diagrams.',
  ['inputs'], 'all derivations and sections, with several kinds of damage',
  'The tests read two sentences and two bad files.',
  [TD + 'ccgbank_parser.py', TD + 'ccg_parser.py'],
  [('CCGBankParser', TD + 'ccgbank_parser.py'),
   ('CCGParser', TD + 'ccg_parser.py')],
  'property-based testing: round trip through a reference writer',
  'Random derivations are written as CCGBank text by a reference writer, '
  'damaged in some cases, and read back.', '')

P('C05', 'Readers combine all words of a sentence in the announced shape',
  'The linear readers give the words in order after the start box and apply '
  'the combining diagram on the left until one wire is left; the spiders '
  'reader joins all words by one spider; the tree reader gives one box per '
  'rule of the resolved derivation, nested like it and named as the mode '
  'says, over the chosen word type. Batches equal single calls, tokens equal '
  'text, and arguments of the wrong kind are refused.',
  ['inputs', 'configurations'], 'all sentences, tokenised or not, word types, '
  'combining diagrams and derivations',
  'The tests read one sentence with each reader.',
  [TD + 'linear_reader.py', TD + 'spiders_reader.py', TD + 'tree_reader.py',
   TD + 'base.py'],
  [('LinearReader', TD + 'linear_reader.py'),
   ('SpidersReader', TD + 'spiders_reader.py'),
   ('TreeReader.tree2diagram', TD + 'tree_reader.py')],
  'property-based testing: reference shapes on plain data',
  'Random sentences and derivations are read and the layers compared with '
  'the list of layers, or the nested term, computed on plain data.', '')

TR = 'lambeq/training/'
P('M01', 'NumpyModel predicts the normalised outcome distribution',
  'For every batch of circuits without inputs and all weights, NumpyModel '
  'gives, in order, the squared amplitudes of pure circuits or the '
  'distribution of mixed ones, divided by their sum (a scalar as it is), '
  'with the i-th weight put for the i-th symbol in sorted order wherever it '
  'occurs, scaled or within controlled and adjoint gates. Weights take '
  'effect at once, also when compiled with JAX; batches equal single calls, '
  'circuits that differ are never confused, and none is changed. Missing '
  'weights raise ValueError and unknown symbols KeyError.',
  ['inputs', 'programs'],
  'all batches of closed circuits of any gates with shared and scaled '
  'symbols, all weights, compiled or not',
  'The tests evaluate one or two fixed circuits and compare shapes.',
  [TR + 'numpy_model.py', TR + 'quantum_model.py', QU],
  [('NumpyModel.get_diagram_output, _get_lambda', TR + 'numpy_model.py'),
   ('QuantumModel._fast_subs, _normalise_vector', TR + 'quantum_model.py')],
  'property-based testing: differential with a numpy reference',
  'Random closed circuits and circuits differing in one detail are '
  'evaluated with random weights, then again in another order and with other '
  'weights, and compared with a dense simulation on plain data.',
  'Circuits of total weight between 0 and 1e-6 are not judged; compiled '
  'ones are compared in single precision.')

P('M02', 'The PyTorch models contract to the meaning of each diagram',
  'PytorchModel gives for every batch of tensor diagrams of one output shape '
  'the tensors they denote for its current weights, whichever path optimiser '
  'is used, and PytorchQuantumModel gives for circuits the normalised '
  'distribution they denote. Scaled, shared and adjoint symbols, concrete '
  'boxes and traces are contracted faithfully, gradients are those of the '
  'meaning, batches equal single calls and no diagram is changed. Initial '
  'weights have the size of each symbol and vectors of norm 1 on average; '
  'unknown symbols raise KeyError.',
  ['inputs', 'configurations'],
  'all batches of tensor diagrams and circuits, weights and path optimisers',
  'The tests contract a few sentence diagrams and check shapes.',
  [TR + 'pytorch_model.py', TR + 'pytorch_quantum_model.py',
   TR + 'tn_path_optimizer.py', TE, QU],
  [('PytorchModel.get_diagram_output, initialise_weights',
    TR + 'pytorch_model.py'),
   ('PytorchQuantumModel', TR + 'pytorch_quantum_model.py'),
   ('ordered_nodes_contractor', TR + 'tn_path_optimizer.py')],
  'property-based testing: differential with a numpy reference, finite '
  'differences for gradients',
  'Random networks of boxes, cups, caps, spiders and swaps and random '
  'circuits are contracted with random weights and compared with the '
  'reference evaluators; gradients of a random functional are compared with '
  'central differences of the reference.',
  'Single-precision weights and tolerances; gradients of PytorchQuantumModel '
  'only where no probability is below 1e-3.')

P('M03', 'PennyLaneModel predicts what the circuits denote',
  'For every batch of circuits and all weights PennyLaneModel gives, in '
  'order and with the batch as first dimension, the amplitudes or the '
  'probabilities each circuit denotes, normalised when asked, for the weights '
  'it holds at the time of the call, with gradients of the probabilities. '
  'Batches equal single calls, circuits are not changed, and unknown circuits '
  'raise KeyError.',
  ['inputs', 'configurations'],
  'all batches of closed circuits with kets, bras, scalars, discards and '
  'supported gates, weights and options',
  'The tests run one or two sentence circuits.',
  [TR + 'pennylane_model.py', PL],
  [('PennyLaneModel', TR + 'pennylane_model.py'), ('PennyLaneCircuit', PL)],
  'property-based testing: differential with a numpy reference',
  'Random circuits with shared symbols are run on default.qubit with random '
  'weights, copied in place and assigned as a whole, and compared with a '
  'dense simulation; gradients with central differences.',
  'Normalised states are compared up to a positive factor because a test '
  'pins the division by the squared norm; total weights below 1e-4 are not '
  'judged.')

P('M04', 'A model loaded from a checkpoint equals the saved one',
  'Saving a model of any kind writes one file and leaves the model as it '
  'was; from_checkpoint, or load on a model with other symbols, weights and '
  'predictions in use, gives a model with the same symbols, weights, '
  'parameters and predictions, independent of the saved one, which can be '
  'saved in turn. A Checkpoint is a mapping that moves to and from files '
  'unchanged. Missing files and folders raise FileNotFoundError naming the '
  'path and change nothing.',
  ['inputs', 'histories', 'configurations'],
  'all models over random diagrams, path optimisers, options and sequences '
  'of predictions, saves and loads',
  'The tests save each model once and compare the number of symbols.',
  [TR + 'checkpoint.py', TR + 'model.py', TR + 'numpy_model.py',
   TR + 'pytorch_model.py', TR + 'pennylane_model.py',
   TR + 'quantum_model.py', TR + 'tket_model.py', PL],
  [('Model.save, load, from_checkpoint', TR + 'model.py'),
   ('_make_checkpoint, _load_checkpoint', TR + 'pennylane_model.py'),
   ('Checkpoint', TR + 'checkpoint.py')],
  'property-based testing: round trip and model-based histories',
  'Random models of all six kinds are saved, loaded into new models and over '
  'used ones and compared; random histories of checkpoint operations are '
  'compared with a dict and a dict of files.',
  'Predictions are compared one circuit at a time; a stand-in backend with '
  'exact counts serves TketModel.')

P('M05', 'Resumed training ends as uninterrupted training',
  'With a seed, training that is interrupted any number of times, after an '
  'epoch or by an exception in a loss or metric, and each time continued by a '
  'new trainer with from_checkpoint and a new model, ends with the weights, '
  'costs, metrics, stopping point, last and best checkpoint of training that '
  'is not interrupted, whatever happens to the random state in between. This '
  'holds for QuantumTrainer with each optimiser and for PytorchTrainer.',
  ['histories', 'crash points', 'configurations', 'inputs'],
  'all interruption points, models, optimisers, shuffles, metrics and '
  'evaluation settings',
  'The tests resume each trainer once and look at a few lengths.',
  [TR + 'trainer.py', TR + 'quantum_trainer.py', TR + 'pytorch_trainer.py',
   TR + 'spsa_optimizer.py', TR + 'nelder_mead_optimizer.py',
   TR + 'checkpoint.py', TR + 'dataset.py'],
  [('Trainer.load_training_checkpoint, fit', TR + 'trainer.py'),
   ('_add_extra_checkpoint_info', TR + 'quantum_trainer.py'),
   ('_add_extra_checkpoint_info', TR + 'pytorch_trainer.py')],
  'property-based testing: metamorphic relation over fault-injected histories',
  'Random training set-ups (stand-in and real models, SPSA, Nelder-Mead, '
  'Rotosolve, four torch optimisers, dropout, shuffles, metrics, early '
  'stopping) are run whole and in random pieces: shorter runs and crashes '
  'injected at a random call of the loss, with the random generators '
  'disturbed before each resumption; all final states and checkpoints must '
  'agree.',
  'Checkpoint files are written whole; nothing is resumed after early '
  'stopping.')

P('M06', 'Datasets give every pair exactly once per epoch',
  'Each iteration over a Dataset gives every data point exactly once with '
  'its own target, in batches of the batch size (the last may be smaller), '
  'in order without shuffling and in an order that depends on the random '
  'seed alone, uniformly, with it; targets are arrays of the current '
  'backend, and iterating never changes the data. flatten gives all diagrams '
  'of nested data in order.',
  ['inputs', 'histories', 'configurations'],
  'all data, batch sizes, backends and sequences of full, partial and '
  'interleaved epochs',
  'The tests iterate over one or two data sets.',
  [TR + 'dataset.py'],
  [('Dataset.__iter__, shuffle_data, __getitem__', TR + 'dataset.py'),
   ('flatten', TR + 'dataset.py')],
  'property-based testing: invariants over histories, statistical test of '
  'the shuffle',
  'Random data sets are read by random sequences of operations and each '
  'epoch compared as a multiset or a list with the data; the positions in '
  '1000 shuffles are counted.',
  'At least one data point.')

P('M07', 'Loss functions are the textbook ones',
  'CrossEntropyLoss, BinaryCrossEntropyLoss (dense and sparse) and MSELoss '
  'give the mean over the batch of the textbook loss of the smoothed, '
  'normalised predictions, do not depend on the order of the batch, change '
  'no argument, agree between NumPy and JAX, and reject shapes that differ.',
  ['inputs', 'configurations'],
  'all non-negative predictions, targets, smoothing constants and shapes',
  'The tests have one batch per loss.',
  [TR + 'loss.py'],
  [('CrossEntropyLoss, BinaryCrossEntropyLoss, MSELoss', TR + 'loss.py')],
  'property-based testing: differential with a scalar reference, metamorphic '
  'relations',
  'Random predictions, some extreme, are compared with a reference over '
  'Python floats, and with permuted and repeated batches.',
  'Single precision under JAX.')

P('M08', 'Optimisers take the steps of the algorithms they implement',
  'SPSA evaluates the loss at two points perturbed symmetrically by c_k '
  'within the bounds, in independent directions, and steps by a_k times the '
  'estimated gradient of the symbols in the batch; Rotosolve moves each '
  'weight in turn to the minimum of its sinusoid; Nelder-Mead keeps the best '
  'point, never gets worse, stays in the bounds and agrees with SciPy. An '
  'optimiser that loads the state of another continues as it would.',
  ['inputs', 'histories', 'configurations'],
  'all models, losses, bounds, hyperparameters and sequences of batches, '
  'with states saved and loaded anywhere',
  'The tests check a few numbers of two steps.',
  [TR + 'spsa_optimizer.py', TR + 'rotosolve_optimizer.py',
   TR + 'nelder_mead_optimizer.py', TR + 'optimizer.py'],
  [('SPSAOptimizer.backward, step', TR + 'spsa_optimizer.py'),
   ('RotosolveOptimizer.backward', TR + 'rotosolve_optimizer.py'),
   ('NelderMeadOptimizer.backward', TR + 'nelder_mead_optimizer.py')],
  'property-based testing: reference steps, differential with SciPy, '
  'statistical test of the directions',
  'Random smooth problems with nested data and batches that use some of the '
  'symbols; each evaluation is observed through a stand-in model and '
  'compared with the recurrence of the algorithm.',
  'Finding: Nelder-Mead zeroes the weights of symbols outside the batch '
  '(pinned by tests).')

P('M10', 'Training evaluates, logs, keeps the best model and stops as asked',
  'fit takes exactly epochs x batches steps unless stopped early, evaluates '
  'the validation data and all metrics at every evaluation interval as '
  'averages weighted by batch size, logs the right numbers at every logging '
  'interval, keeps the model with the best criterion as best_model.lt and '
  'the last as model.lt, and stops as soon as the criterion has not improved '
  'in the given number of evaluations. Unknown criteria and modes raise '
  'ValueError before training.',
  ['histories', 'configurations', 'schedules'],
  'all sequences of losses, metric values and step times, and all settings '
  'of intervals, modes, criteria and verbosity',
  'The tests run a few settings on data without structure.',
  [TR + 'trainer.py'],
  [('Trainer.fit, _step_and_eval, _summarize_metric, _check_early_stopping',
    TR + 'trainer.py')],
  'property-based testing: reference model of the training loop',
  'A trainer with scripted losses, metrics and a scripted clock is run with '
  'random settings; costs, metrics, durations, files, log lines and the '
  'stopping step are compared with a reference loop.',
  'When the criterion is tied either decision is accepted.')

P('M11', 'Trainers take the steps of the given optimiser, reproducibly',
  'PytorchTrainer leaves the weights, losses and metrics that a plain PyTorch '
  'loop over the batches in order leaves, with the optimiser, learning rate '
  'and arguments given (AdamW at 1e-3 by default), for all parameters of the '
  'model; QuantumTrainer leaves those of its optimiser called batch by batch. '
  'Validation changes nothing and uses the weights of the moment, losses and '
  'metrics get (prediction, target). Two runs from the same seed, model and '
  'data are identical, any seed including 0.',
  ['inputs', 'histories', 'configurations'],
  'all models, optimisers and their settings, batch sizes and evaluation '
  'schedules',
  'The tests check that losses go down on a few circuits.',
  [TR + 'pytorch_trainer.py', TR + 'quantum_trainer.py', TR + 'trainer.py',
   TR + 'quantum_model.py'],
  [('PytorchTrainer.training_step, validation_step',
    TR + 'pytorch_trainer.py'),
   ('QuantumTrainer.training_step, validation_step',
    TR + 'quantum_trainer.py')],
  'property-based testing: differential against a plain training loop, '
  'metamorphic (same seed)',
  'Random models (with layers and frozen parameters too), optimisers and '
  'schedules; the same loop is written out by hand from the same initial '
  'weights and random state.',
  'Predictions seen by metrics in a QuantumTrainer training step are not '
  'judged.')

P('M09', 'Contraction orders never change results, and known paths are '
  'reused',
  'Contracting a tensor network with ordered_nodes_contractor and any path '
  'optimiser gives the tensor of the network with its free edges in the '
  'order asked for, and wrong orders raise ValueError. A cached path '
  'optimiser searches once for each network shape: later contractions, a '
  'new optimiser on the same file and a model restored from a checkpoint '
  'that was made to contain paths reuse the path; checkpoints contain paths '
  'only when asked to. Models give the same outputs with every optimiser.',
  ['inputs', 'histories', 'configurations'],
  'all connected and disconnected networks, edge orders and sequences of '
  'contractions, saves and loads',
  'The tests contract two fixed networks.',
  [TR + 'tn_path_optimizer.py', TR + 'pytorch_model.py'],
  [('ordered_nodes_contractor, TnPathOptimizer, CachedTnPathOptimizer',
    TR + 'tn_path_optimizer.py'),
   ('PytorchModel.get_diagram_output, _make_checkpoint',
    TR + 'pytorch_model.py')],
  'property-based testing: differential with einsum, stateful testing of the '
  'cache with a counting path search',
  'Random networks are contracted under random algorithms, with and without '
  'a cache that is saved, reloaded and moved through checkpoints, against '
  'one einsum; the searches are counted.',
  'Scratch directories only.')

P('D01', 'Diagrams move to and from DisCoPy unchanged',
  'to_discopy keeps types, boxes (kind, name, domain, codomain, winding, '
  'dagger, data) and their positions; from_discopy takes the result back to '
  'an equal diagram. Circuits of the boxes that both libraries have, also '
  'those built in DisCoPy with kets, bras, discards and measurements of '
  'several wires, denote the same tensor on both sides, and symbols are '
  'kept.',
  ['inputs'],
  'all grammar and tensor diagrams and all circuits of the shared boxes',
  'The tests convert a handful of diagrams.',
  ['lambeq/backend/converters/discopy.py'],
  [('to_discopy, from_discopy, entity_to_discopy, entity_from_discopy',
    'lambeq/backend/converters/discopy.py')],
  'property-based testing: round trip, structural comparison, differential '
  'evaluation with DisCoPy',
  'Random diagrams of each kind are converted both ways and compared box by '
  'box; circuits and tensor diagrams are evaluated by both libraries.',
  'Frames and rotated boxes are compared by structure only.')

P('U01', 'The backend in force, copies and durations can be trusted',
  'backend(name) puts a numerical backend in force for its context and the '
  'former one afterwards, also after exceptions and unknown names; '
  'set_backend changes the innermost one; get_backend and evaluation use the '
  'one in force. Copies of diagrams, circuits and CCG trees by copy, '
  'deepcopy, fast_deepcopy and pickle, also read in another process, equal '
  'the original and hash equally. normalise_duration writes the nearest '
  'second (or hundredth under a minute) in units that never overflow.',
  ['inputs', 'histories'],
  'all nestings of contexts, settings and exceptions; all diagrams; all '
  'durations',
  'The tests have five durations and no nested contexts.',
  ['lambeq/core/utils.py', 'lambeq/backend/numerical_backend.py'],
  [('backend, set_backend, get_backend',
    'lambeq/backend/numerical_backend.py'),
   ('normalise_duration, fast_deepcopy', 'lambeq/core/utils.py')],
  'property-based testing: stateful model of the context stack, round trips '
  'through another process, exact arithmetic',
  'Random programs of nested contexts run against a stack model; random '
  'objects are pickled into a process with another hash seed and back; '
  'durations are compared with exact fractions.',
  'Other process: a few batches per run.')

P('U02', 'The command line does what the library does with the same options',
  'main() reads the text from the argument, file or standard input, parses '
  'or reads every sentence, applies mode, rewrite rules and ansatz with the '
  'given or documented default options, and writes exactly the text, JSON, '
  'pickle or images of the objects that the library calls give, to exactly '
  'the files asked for. Combinations that make no sense raise ValueError '
  '(malformed options are usage errors) and write nothing. Stored arguments '
  'reproduce the run when loaded, and arguments on the line are stronger '
  'than loaded ones.',
  ['inputs', 'configurations'],
  'all combinations of options, also spread over the command line and a '
  'file of stored arguments, over batches of sentences',
  'The tests run some twenty command lines, mostly with mocks.',
  ['lambeq/cli.py'],
  [('main, validate_args, ArgumentList, the modules of the pipeline',
    'lambeq/cli.py')],
  'property-based testing: differential with direct library calls',
  'Random options and generated CCG trees served by stand-in parsers are '
  'run through main() in a scratch directory; output, files and errors are '
  'compared with the composition of library calls.',
  'Parsers and tokeniser are stand-ins; images compared as PNG and JPEG.')

P('C06', 'Pregroup trees and diagrams hold the same words, types and links',
  'A pregroup tree becomes a well-formed diagram with its words in order, '
  'each wire linked to that of its parent, and its root type on the '
  'outside; a pregroup diagram becomes a tree with the same words and the '
  'links of its wires, caps and swaps straightened, and each comes back '
  'from the other where it is a tree. generate_tree has the given words, '
  'types and parents; breaking cycles keeps all words and adds no link; '
  'heights, words, types, parents and drawing follow every change of a '
  'tree. Oncilla gives the diagram of the parents and types its model '
  'predicts, for batches as for single sentences, with exactly one root, a '
  'word, and errors for what makes no tree.',
  ['inputs', 'histories'],
  'all trees, also with crossing branches; planar pregroup diagrams and '
  'diagrams of CCG derivations; all graphs of words and parents',
  'The tests convert about ten sentences.',
  [TD + 'pregroup_tree.py', TD + 'pregroup_tree_converter.py',
   TD + 'model_based_reader/oncilla_parser.py', 'lambeq/oncilla/parser.py'],
  [('tree2diagram, diagram2tree, generate_tree, remove_cycles',
    TD + 'pregroup_tree_converter.py'),
   ('PregroupTreeNode', TD + 'pregroup_tree.py'),
   ('BertForSentenceToTree._sentence2pred', 'lambeq/oncilla/parser.py')],
  'property-based testing: round trips, link tracing, model of tree edits, '
  'reference decoding',
  'Random trees, diagrams and derivations are converted and the links '
  'between wires traced on plain data on both sides; edits of trees run '
  'against a model; a stand-in network feeds random scores to Oncilla.',
  'The wiring of auxiliary verbs, whose wires the converter orders anew, is '
  'not compared; with swaps only names of atoms are.')

BO = 'lambeq/bobcat/'
P('C07', 'Bobcat finds the best derivations its grammar and scores allow',
  'CCG categories are read, written, compared and matched as documented, '
  'and the tagger keeps for each word and span the most probable categories '
  'above the thresholds, whatever else is in the batch. The chart parser '
  'gives, best first, derivations of exactly the words given in which each '
  'word has one of its tags and each step follows a CCG rule, the pairs of '
  'categories of the grammar and the limits on type changes, with an allowed '
  'root and the documented score; it misses none that the beam leaves, and '
  'gives none for a word without tags. Trees and diagrams of BobcatParser '
  'have the same words, rules and types, also in batches with failures, and '
  'its options are those saved with the model unless the caller gives '
  'others.',
  ['inputs', 'configurations'],
  'all categories, all pairs of lexical categories, sentences over a lexicon '
  'with random tags, scores, beams, root categories and grammars',
  'The tests run a few sentences, and the neural model is not available to '
  'them.',
  [BO + 'parser.py', BO + 'rules.py', BO + 'tree.py', BO + 'lexicon.py',
   BO + 'tagger.py', TD + 'model_based_reader/bobcat_parser.py'],
  [('ChartParser.__call__, Cell.add', BO + 'parser.py'),
   ('Rules.combine', BO + 'rules.py'), ('Tagger.parse', BO + 'tagger.py'),
   ('Category.parse, __eq__, matches', BO + 'lexicon.py')],
  'property-based testing: reference chart parser, independent judge of '
  'derivations, reference selection of tags',
  'Random sentences are parsed and every derivation judged by rules written '
  'on plain categories; an exhaustive chart over plain Python gives the '
  'best scores; a small random network runs the tagger.',
  'Ties within a cell skip the comparison with the chart; the limit on the '
  'number of trees is not judged.')

P('C08', 'Text drawings show the words, types, links and rules they draw',
  'render_as_str draws a pregroup diagram such that reading the characters '
  'gives back its words, the types below them, the wire of each type, each '
  'cup and swap, and the free wires, one box per layer or each box as early '
  'as it can be, as asked; other diagrams are refused. CCGTree.deriv, '
  'horizontal or vertical, reads back as the tree with its words, '
  'categories and rules, each line spanning exactly the constituents it '
  'joins. ASCII drawings of ASCII words use only ASCII characters and show '
  'the same.',
  ['inputs', 'configurations'],
  'all pregroup diagrams of words, cups and swaps, all derivations, spacings '
  'and styles', 'The tests compare a handful of drawings as strings.',
  ['lambeq/backend/drawing/text_printer.py', TD + 'ccg_tree.py'],
  [('PregroupTextPrinter.diagram2str',
    'lambeq/backend/drawing/text_printer.py'),
   ('CCGTree.deriv', TD + 'ccg_tree.py')],
  'property-based testing: round trip through a reader of the drawings, '
  'metamorphic relation between character sets',
  'Random diagrams and derivations are drawn; a parser of the characters '
  'follows wires by columns and lines by their spans and must find what was '
  'drawn.', 'Words contain no spaces or drawing characters.')

P('X01', 'DisCoCirc diagrams have one wire per entity and its events in order',
  'text2circuit returns a diagram with one state and one wire for each '
  'entity that the text mentions (mentions are identified by coreference; '
  'entities with a pruned word, or mentioned fewer times than the minimum, '
  'have neither), and on these wires, in the order of the sentences, a box '
  'or frame for each word that acts on entities, joined to exactly the '
  'entities its tree gives it, whether or not another entity is in between; '
  'frames nest as the words do, and sandwiches have one layer of a word '
  'between each two of its subdiagrams. Coreference resolvers return, for '
  'each cluster found, its words within their sentences, and every other '
  'noun as an entity of its own. Tree rewriting rules contract exactly the '
  'nodes they match, and leave the tree given as it is.',
  ['inputs', 'configurations'],
  'all texts of trees (also with cycles, roots that lack a noun, tokens '
  'missing from the parse), coreference clusters, pruned words, minimum '
  'counts, rewriting rules and options',
  'No test builds a DisCoCirc diagram.',
  ['lambeq/experimental/discocirc/reader.py',
   'lambeq/experimental/discocirc/coref_resolver.py',
   'lambeq/experimental/discocirc/pregroup_tree_rewriter.py'],
  [('DisCoCircReader.text2circuit',
    'lambeq/experimental/discocirc/reader.py'),
   ('TreeRewriter', 'lambeq/experimental/discocirc/pregroup_tree_rewriter.py')],
  'property-based testing against a reference translation: entities are '
  'followed through swaps and spiders of the diagram',
  'Random texts are given to the reader by a parser (Bobcat or Oncilla) and '
  'a resolver that return generated trees and clusters; each wire of the '
  'diagram is followed and the events on each entity are compared with '
  'those read off the trees. The resolvers run on generated spaCy documents '
  'and model output.',
  'Parser and coreference model are stand-ins.')

P('V01', 'Drawings show exactly the boxes and wires of the diagram',
  'In every drawing of a diagram, pregroup diagram, circuit or equation, '
  'each box is drawn once with its name, orientation, controls and targets, '
  'and following the lines from the inputs gives exactly the wires of the '
  'diagram, each with its type, in order, to its outputs at the bottom; '
  'TikZ, Matplotlib and any other backend are given the same drawing. '
  'Without frames, wires are vertical between boxes, boxes do not overlap '
  'and no wire runs behind a box; foliated drawings have one box per layer. '
  'A frame contains its components, in order and without overlap, and these '
  'contain their boxes, joined as in the component; nouns have distinct '
  'colours, and keep them along their wires, through swaps and spiders, and '
  'an animation shows the drawings in order, each for the time given.',
  ['inputs', 'configurations'],
  'all diagrams (rotated and daggered boxes, nested frames and controls, '
  'floating boxes and wires, bits and qubits), backends and options',
  'Tests compare images or coordinates of a few diagrams.',
  ['lambeq/backend/drawing/drawable.py',
   'lambeq/backend/drawing/drawing.py',
   'lambeq/backend/drawing/tikz_backend.py',
   'lambeq/backend/drawing/mat_backend.py'],
  [('DrawableDiagram.from_diagram', 'lambeq/backend/drawing/drawable.py'),
   ('draw', 'lambeq/backend/drawing/drawing.py')],
  'property-based testing: round trip through a reader of the TikZ code, '
  'differential testing of the backends',
  'Random diagrams are drawn as TikZ; a reader follows the lines from the '
  'top and must find the boxes, types and joins of the specification. The '
  'same drawing is recorded by a backend of our own and compared with the '
  'TikZ code and the Matplotlib artists. Diagrams with frames are read from '
  'the coordinates and wires of the drawable.',
  'LaTeX is not run; the shapes of drawings with frames are not judged '
  'beyond containment.')

P('W01', 'Web and DepCCG parsers give exactly the derivations they were sent',
  'For every batch, WebParser and DepCCGParser return one entry for each '
  'sentence, in order: the derivation that the service or the DepCCG package '
  'found for exactly this sentence (same words, categories and rules), or '
  'its diagram. Blank sentences and failures give None if exceptions are '
  'suppressed, and otherwise the documented exception, and never affect '
  'other entries. White space is normalised, special characters reach the '
  'service intact, the lists of the caller and results returned before are '
  'left alone, and the options are passed on.',
  ['inputs', 'fault_sequences'],
  'all batches, derivations, failures, options and entry points',
  'Tests of these parsers need the network or the package and do not run.',
  ['lambeq/text2diagram/web_parser.py',
   'lambeq/text2diagram/depccg_parser.py',
   'lambeq/text2diagram/ccg_parser.py', 'lambeq/core/utils.py'],
  [('WebParser.sentences2trees', 'lambeq/text2diagram/web_parser.py'),
   ('DepCCGParser', 'lambeq/text2diagram/depccg_parser.py')],
  'property-based testing: round trip of generated derivations through '
  'stand-ins of the service and of the package, with injected failures',
  'Random derivations are served by a stand-in below the requests library '
  'and by a fake depccg package; trees and diagrams must be those served.',
  'The service and the package themselves are stand-ins.')

P('W02', 'A cached model is complete, current and survives failed updates',
  'Starting a reader with the name of a model leaves the latest version of '
  'the server in the cache, complete and marked with its version, if the '
  'cached version differs or a download is forced, and downloads nothing '
  'otherwise or for a path of a local model. If any request fails (no '
  'connection, error status, lost connection, wrong checksum, damaged '
  'archive), the cache is unchanged, and the reader goes on with the cached '
  'version if there is one and else raises an error. After a crash at any '
  'point, a version mark in the cache means that the files of this version '
  'are complete, so that the next start repairs the cache.',
  ['histories', 'fault_sequences', 'crash_points'],
  'all histories of publications, starts, failures and crashes',
  'Tests check single errors with an empty cache.',
  ['lambeq/text2diagram/model_based_reader/model_downloader.py',
   'lambeq/text2diagram/model_based_reader/base.py'],
  [('ModelDownloader.download_model',
    'lambeq/text2diagram/model_based_reader/model_downloader.py'),
   ('ModelBasedReader._prepare_model_artifacts',
    'lambeq/text2diagram/model_based_reader/base.py')],
  'stateful property-based testing with injected faults and crashes, '
  'against a model of the cache',
  'Random histories run against a stand-in server below the requests '
  'library; crashes are raised at each change of the file system, found by '
  'an audit hook.',
  'The server is a stand-in; an interrupted first download is not used '
  'offline; files that the new version lacks may stay.')


P('K01', 'Tokenisers keep all text in order, whatever the batch',
  'For every list of sentences, tokenise_sentences gives one list of '
  'non-empty tokens per sentence, in order, whose concatenation is the '
  'sentence without its white space; no token reaches across white space, '
  'and neither the other sentences of the batch nor the kind or amount of '
  'white space changes the tokens. split_sentences cuts a text into '
  'consecutive parts that lose nothing but white space. The spaCy model is '
  'downloaded only if it is missing, and under the name asked for.',
  ['inputs'],
  'all texts and batches (abbreviations, clitics, Unicode, control and '
  'non-breaking spaces, empty sentences, generators)',
  'Tests of the tokeniser need the spaCy model and do not run.',
  ['lambeq/tokeniser/spacy_tokeniser.py', 'lambeq/tokeniser/base.py',
   'lambeq/core/utils.py'],
  [('SpacyTokeniser', 'lambeq/tokeniser/spacy_tokeniser.py'),
   ('get_spacy_tokeniser', 'lambeq/core/utils.py')],
  'property-based testing: invariants of the text, differential testing with '
  'spaCy itself, metamorphic relations between batches',
  'Random texts are tokenised and split by the tokeniser with a blank English '
  'model in place of the one to download; the text must come back, and each '
  'sentence must have the tokens it has on its own.',
  'The statistical parts of the model are not there; they are disabled by the '
  'tokeniser anyway.')
