"""What is claimed: one entry per property. gen.py writes properties.jsonl and MANIFEST.json from it."""
META = {}


def prop(pid, title, statement, over, quantifier, tests, files, mechanism, observe, rule, note, assume=()):
    META[pid] = dict(title=title, statement=statement, over=over, quantifier=quantifier, tests=tests, files=files,
                     mechanism=mechanism, observe=observe, rule=rule, note=note, assume=list(assume))


prop('C01', 'Recognition results do not depend on how the audio is cut into chunks',
     'Feeding the bytes of an utterance to ce_stt_process in any sequence of pieces, including pieces that end inside a sample, gives the same final hypothesis and score as feeding them in one piece. '
     'Each call returns the number of samples it completed, so that the counts add up to the samples of the utterance. '
     'The intermediate hypothesis and its score at a byte position depend only on the bytes before it, not on the earlier cuts.',
     ['inputs', 'histories', 'configurations'],
     'All models (graph, network, context widths, chunk size), all utterances in the supported sample sizes, all ways of cutting the byte stream into non-empty pieces.',
     'The stable tests decode no audio through the public interface; the unit tests feed single fixed buffers.',
     ['src/ce_stt.cc', 'src/pcm_reader.cc', 'src/fbank.cc', 'src/am.cc', 'src/decoder.cc'],
     [('bytes of an incomplete sample are kept for the next call', 'src/pcm_reader.cc WaveReader::Process'), ('samples of an incomplete frame are kept', 'src/fbank.cc Fbank::Process, Fbank::Instance'), ('frames wait for their right context', 'src/am.cc AcousticModel::Process'), ('feature rows are passed on one by one', 'src/ce_stt.cc ce_stt_process')],
     ['ce_stt_process', 'ce_stt_end_of_stream', 'ce_utt_t.hyp', 'ce_utt_t.loglikelihood_per_frame'],
     'Random small models and audio; the audio is decoded in one piece and in 1-2 random cuttings (styles: arbitrary, frame aligned +-1 byte, 1024 bytes, tiny and large mixed), and streams of up to 3000 frames in pieces of any size; hypotheses and scores are also compared at the byte positions both cuttings share. Non-trivial: more than one piece and a non-empty final hypothesis.',
     'Metamorphic relation between cuttings of the same stream, under AddressSanitizer.',
     ['scores are compared with a relative tolerance of 1e-5, hypotheses exactly'])

prop('C02', 'Utterances and recognizers do not influence each other',
     'The results of an utterance (return values, intermediate and final hypotheses, score) are the same whether it is decoded alone or interleaved with other utterances of the same or another recognizer, created, fed and destroyed in any order. '
     'The same holds when recognizers are destroyed and others created in between, and for utterances of one or several recognizers that are decoded in concurrent threads (a thread may also create a recognizer of its own), and no data race occurs.',
     ['histories', 'schedules', 'inputs', 'configurations'],
     'All interleavings of the calls on up to 12 utterances over up to 2 recognizers, histories of up to 14 recognizers of 2-3 models one after the other, and concurrent decoding in 2-4 threads.',
     'No existing test decodes two utterances at the same time.',
     ['src/ce_stt.cc', 'src/am.cc', 'src/fbank.cc', 'src/decoder.cc', 'src/fst.cc', 'src/srfft.cc'],
     [('all the state of an utterance is in its own objects', 'src/ce_stt.cc ce_utt_init'), ('the models are shared and constant', 'src/ce_stt.cc ce_stt_t')],
     ['ce_utt_t of each utterance'],
     'Interleaved: random schedules of init/process/end/destroy over 2-12 utterances and 1-2 recognizers, the oracle being each utterance alone on a recognizer of its own. Come and go: recognizers of 2-3 models are created and destroyed in random order and decode the same recordings again (also without sanitizer, so that addresses are used again). Threads: 2-4 threads on 1-2 recognizers or one of their own, also built with ThreadSanitizer. Non-trivial: at least two utterances with a non-empty result.',
     'Metamorphic relation over generated call histories; the schedules of the threads are those the system happens to run, with ThreadSanitizer reporting races that did not change the result.',
     ['thread schedules are sampled, not controlled', 'the language model cache is part of the decoder of an utterance'])

prop('C03', 'Without pruning the decoder finds the cheapest path of the graph',
     'For every decoding graph and every sequence of acoustic scores where no hypothesis of the cheapest path leaves the beam, the final result is a word sequence of a cheapest accepted path and carries the cost of that path: graph weights, scaled acoustic costs of the mapped transitions and the final weight. '
     'Results asked for before the end are those of a cheapest path to any state, without final weights. '
     'When no path accepts the input, the result is empty. '
     'A decoder that is initialized again decodes like a new one, wherever its last stream was left.',
     ['inputs', 'programs'],
     'All graphs (emitting and epsilon arcs, epsilon cycles of positive cost, final states or none, dead ends), transition maps, scales and score sequences.',
     'decoder_test decodes one recording with one graph and compares one word sequence.',
     ['src/decoder.cc', 'src/decoder.h'],
     [('start of a stream', 'src/decoder.cc Decoder::Initialize'), ('emitting arcs', 'src/decoder.cc Decoder::ProcessEmitting'), ('epsilon closure with requeueing', 'src/decoder.cc Decoder::ProcessNonemitting'), ('word history', 'src/decoder.h Decoder::OLabel'), ('final weights', 'src/decoder.cc Decoder::EndOfStream, Decoder::BestPath')],
     ['Decoder::Process', 'Decoder::EndOfStream', 'Decoder::BestPath'],
     'Random graphs of up to 24 states with dyadic weights (exact in single precision), up to 50 frames, and graphs of up to 3000 states; now and then the decoder gets the same problem with large, sparse numbers of states, transitions and words; an independent dynamic program over all paths gives the cheapest cost, the cheapest cost of the returned words, and decides whether the beam can matter (then the case is discarded or judged as in C05). Marathons: up to 80000 frames on graphs whose words determine the path. One decoder in six has decoded other streams before. Non-trivial: a result over more than one frame on a graph of more than two arcs.',
     'Differential test against a reference Viterbi search with exact arithmetic.',
     ['weights are multiples of 1/64 so that float sums are exact', 'epsilon cycles have positive cost'])

prop('C04', 'Decoding with a language model finds the cheapest path of the combined model',
     'With a large and a small language model given, every word on a path costs its large-model cost minus its small-model cost in addition to the graph, the large-model history is part of the search state, and the end of the sentence is charged with the end-of-sentence cost difference. '
     'The result is a cheapest combined path unless pruning within the beam can have removed it. '
     'A word the large model does not know costs nothing and leaves the language model state as it is.',
     ['inputs', 'programs', 'configurations'],
     'All graphs, back-off language models (including words missing from the model) and score sequences.',
     'No stable test decodes with a language model difference.',
     ['src/decoder.cc', 'src/fst.cc'],
     [('difference model', 'src/fst.cc DeltaLmFst'), ('tokens are identified by graph state and model state', 'src/decoder.cc Decoder::PropogateLm, ProcessEmitting, ProcessNonemitting'), ('back-off', 'src/fst.cc LmFst::GetArc')],
     ['Decoder::BestPath'],
     'As C03 with a random back-off model of up to 6 states and a random unigram vector; the reference search runs over pairs of graph and model state (graphs of up to 400 states; large, sparse numbers as in C03; epsilon cycles whose weight outweighs every word; marathons of up to 20000 frames). Non-trivial: a non-empty word sequence over more than one frame.',
     'Differential test against a reference search over the product space with exact arithmetic.',
     ['no cycle of epsilon arcs has a negative cost', 'the beam compares emitting tokens without the language model cost, the reference brackets both readings'])

prop('C05', 'Pruning never yields a wrong result or loses a path well within the beam',
     'Whatever is pruned, a non-empty result is the word sequence of a real path of the graph, its cost is the cost of such a path, and it is never more expensive than the cheapest path that stays within the beam (16) of the best hypothesis in every frame, as long as fewer hypotheses are alive than the limit of the search; when more are alive, the cheapest ones are kept. '
     'A search without surviving hypotheses reports failure for that frame and all later ones and gives an empty result instead of crashing.',
     ['inputs', 'programs', 'histories'],
     'All graphs with large score differences, beams that become empty, and beams of 20000-120000 hypotheses.',
     'The test recording never empties the beam and never overflows it.',
     ['src/decoder.cc'],
     [('cutoff and adaptive beam', 'src/decoder.cc Decoder::GetCutoff'), ('empty beam', 'src/decoder.cc Decoder::Process')],
     ['Decoder::Process', 'Decoder::BestPath'],
     'Graphs with weights spread over up to 25 and acoustic costs over up to 50, with and without language model; the reference gives the cheapest path, the cheapest path that provably survives and the cost set of the returned words. Crowded beams: fans of 20000-120000 branches whose later winner starts among the best. Non-trivial: the cheapest path can be pruned or nothing survives; more than 30000 hypotheses.',
     'Validity predicate over the output, with bounds from a reference search.',
     ['between the beam and what provably survives both outcomes are accepted'])

prop('C06', 'Collecting word histories never changes or damages results of long utterances',
     'Over utterances of any length, with any number of intermediate results, the words and the cost reported are those of a path of the graph over the frames decoded so far, and the cost is bounded by that of the cheapest path within the beam. '
     'Periodic collection of unused word history neither removes nor alters the history of a live hypothesis.',
     ['histories', 'inputs'],
     'All utterance lengths, graphs with words on any arcs, and times at which intermediate results are asked for.',
     'The only decoding test is a few hundred frames long, with a single result, and runs no memory checker.',
     ['src/decoder.cc', 'src/pool.h'],
     [('mark and sweep from the live tokens', 'src/pool.h GCPool::GC'), ('collection every 20 frames', 'src/decoder.cc Decoder::Process')],
     ['Decoder::BestPath'],
     'Random graphs with up to 1200 frames and up to hundreds of words per result (marathons: up to 80000 frames and words), vocabularies of up to 40 words, intermediate results at random times, under AddressSanitizer with poisoning. Non-trivial: a result of more than 20 words.',
     'Stateful generated histories against a reference search.', ['weights are exact in single precision'])

prop('C07', 'End to end, the reported words explain the audio',
     'For every model and audio, the final hypothesis is a path of the decoding graph whose total cost under the documented pipeline (PCM decoding, 40-dimensional log mel filter bank, acoustic model with context, prior division, acoustic scale 0.1, graph, language model difference) is not above that of any path within the beam; the score reported is that cost divided by the number of frames. '
     'Frames number 1 + (samples - 400) / 160 and none is lost at the end of the stream. '
     'Intermediate hypotheses are those of the last multiple of 20 decoded frames.',
     ['inputs', 'configurations', 'programs'],
     'All models (graph, network, context, chunk size, priors, language models, symbol table) and audio in 8, 16 and 32 bits.',
     'No stable test runs the whole pipeline; the parts are compared with one recording each.',
     ['src/ce_stt.cc', 'src/decoder.cc', 'src/am.cc', 'src/nnet.cc', 'src/fbank.cc', 'src/pcm_reader.cc', 'src/symbol_table.cc', 'src/fst.cc'],
     [('order and wiring of the stages', 'src/ce_stt.cc ce_stt_process, ce_stt_end_of_stream, ce_utt_init'), ('words of the hypothesis', 'src/ce_stt.cc StoreHypText')],
     ['ce_utt_t.hyp', 'ce_utt_t.loglikelihood_per_frame'],
     'Random complete models written to files, random audio of up to 3000 frames (marathons: up to 52000 frames, a word in every frame); an independent double precision implementation of the whole pipeline with error bounds gives the cost of the cheapest path, of the cheapest path that provably survives and of the words reported, at the end and for every intermediate result. Non-trivial: more than one word in the result.',
     'Differential test against an independent reference of the whole pipeline.',
     ['inputs on which the reference error bound is too large are discarded', 'tolerances follow from the propagated rounding error'])

prop('C08', 'Word tables and character transcripts keep every word',
     'convert_words.py writes, for every list of words with non-negative ids, a table whose header sizes and offsets match its bytes and in which each id leads to exactly its word, ids without a word to "<empty>". '
     'conv_chartok.sh keeps the first field of every line and the order of all others; a field that contains a [..] or <..> group or !SIL stays whole, any other field is split into its characters (not bytes), and no line is added or lost.',
     ['inputs'],
     'All word lists (any order, gaps in the ids, separators, line ends) and all UTF-8 transcripts.',
     'The tools have no tests.',
     ['tool/convert_words.py', 'tool/conv_chartok.sh'],
     [('table layout', 'tool/convert_words.py'), ('splitting', 'tool/conv_chartok.sh')],
     ['SYM0 file', 'transcript file'],
     'Random lists of 1-9000 words of one- to four-byte characters, decoded by an independent reader of the layout; random transcripts of 1-1500 lines compared with a byte-exact reference. Non-trivial: more than one word; fields kept and fields split.',
     'Round trip through an independent reader, and a reference model.', ['words contain no white space, Unicode white space included'])

prop('C09', 'Language model queries follow back-off semantics with any table or cache',
     'The cost and next state of a word, and the end-of-sentence cost, are those of the back-off model: the explicit arc of the state, or the back-off cost plus the answer of the back-off state. '
     'The difference model subtracts the unigram cost, starts after the sentence start symbol and ends with the end symbol. '
     'The lookup table for state 0 and the cache of any size in front of the model never change an answer.',
     ['inputs', 'histories', 'configurations'],
     'All back-off models (any depth, missing words, final and non-final states), unigram vectors, cache sizes and query histories.',
     'fst_test queries one small model with a few labels; collisions in the cache and deep back-off do not occur.',
     ['src/fst.cc', 'src/fst.h'],
     [('back-off', 'src/fst.cc LmFst::GetArc, LmFst::Final'), ('table', 'src/fst.cc LmFst::InitBucket0'), ('difference', 'src/fst.cc DeltaLmFst'), ('cache', 'src/fst.cc CachedFst')],
     ['GetArc', 'Final', 'StartState'],
     'Random models of up to 40 states and 12 words (all pairs queried) and large ones of up to 60000 states and 150000 words with 20000 cached queries; the cache also in front of computed transducers with different input and output labels, for query histories that repeat and collide; cache sizes from 1. Non-trivial: more than one state, or a query the cache answers.',
     'Reference model.', ['costs compared with relative tolerance 1e-5'])

prop('C10', 'Graph files are read exactly or rejected',
     'Loading a well-formed graph file reproduces its start state, final costs and arcs; iterating over the arcs of a state gives exactly its arcs in order and looking up an input label finds the arc with that label if and only if the state has one. '
     'A truncated file, a wrong signature, a section size or counts that do not fit the content are reported as an error, without crash or access outside of the data. This holds for language model graphs in the format of the project and for decoding graphs in the const format of OpenFst (a file of another type of graph or arc is rejected).',
     ['inputs', 'fault_sequences'],
     'All graphs with arcs sorted by label (states without arcs included) and all damage of the listed kinds.',
     'fst_test reads one intact file.',
     ['src/fst.cc', 'src/fst.h', 'src/openfst/include/fst/const-fst.h', 'src/openfst/lib/fst.cc'],
     [('validation while reading', 'src/fst.cc Fst::Read'), ('reading of decoding graphs', 'src/openfst/include/fst/const-fst.h ConstFstImpl::Read'), ('binary search', 'src/fst.cc Fst::GetArc'), ('index of the first arc', 'src/fst.cc Fst::CountArcs, Fst::IterateArcs')],
     ['Fst::Read', 'Fst::GetArc', 'Fst::ArcIterator', 'Fst::Final'],
     'Random graphs of up to 6000 states (single states with thousands of arcs included) written in the documented layout, and decoding graphs of up to 20000 states written as const OpenFst files (aligned or not, with or without symbol tables), intact (a third) or damaged in one of five ways each. Non-trivial: more than one arc, or damaged.',
     'Round trip against the generated content, fault injection in the bytes, AddressSanitizer.')

prop('C11', 'Filter bank features do not depend on how samples arrive',
     'Feeding the samples of a stream in any pieces, empty ones included, and interleaved with other streams that share the extractor, produces the same feature rows as feeding them at once. '
     'After n samples exactly 1 + (n - 400) / 160 rows have been delivered (none below 400 samples), each of 40 values.',
     ['inputs', 'histories'],
     'All signals, all cuttings, up to 3 interleaved streams.',
     'fbank_test processes one recording, whole or in one fixed chunk size.',
     ['src/fbank.cc', 'src/fbank.h'],
     [('samples left over', 'src/fbank.cc Fbank::Process, Fbank::Instance'), ('number of frames', 'src/fbank.cc Fbank::CalcNumFrames')],
     ['Fbank::Process'],
     'Random signals of up to 12 frames fed in random pieces (four styles) over 1-3 interleaved instances, and signals of minutes in pieces of up to all of it. Non-trivial: more than one row and more than one piece.',
     'Metamorphic relation (bitwise equality) plus exact row counts.', ['streams whose length is not representable are out of scope'])

prop('C12', 'Filter bank features follow their definition',
     'Each feature row is the log of the energies of 40 mel filters (20 Hz to 8 kHz) over the power spectrum of the 400-sample frame after DC removal, pre-emphasis 0.97 and Hamming window, padded to 512, floored at the single precision epsilon (1.19e-7). '
     'This holds for every signal and level, silence and constants included.',
     ['inputs'],
     'All signals of at least one frame, at any level.',
     'fbank_test compares one recording with a tolerance so loose (integer absolute value) that errors below 1 pass.',
     ['src/fbank.cc', 'src/srfft.cc'],
     [('window', 'src/fbank.cc Fbank::HammingWindowInit'), ('spectrum', 'src/fbank.cc Fbank::ComputePowerSpectrum'), ('filters', 'src/fbank.cc Melbanks')],
     ['Fbank::Process'],
     'Noise, tones, bursts, impulses, constants, silence, square waves at levels of 1e-3 to 65536 times; a double precision reference computes for each value an interval that accounts for float rounding. Non-trivial: signal not silent.',
     'Differential test against a reference with interval bounds.', ['tolerance grows for filters whose energy is below the rounding noise of the frame'])

prop('C13', 'The FFT is the discrete Fourier transform and its inverse inverts it',
     'For every power of two from 4 to 65536, the forward transform of a real vector is its DFT in the packed layout (bin 0 and bin N/2 first), and applying the inverse transform afterwards gives N times the input. '
     'The result depends on nothing but the data: neither the content or size of the work buffer nor earlier calls.',
     ['inputs', 'configurations'],
     'All sizes 4..65536 and all real vectors.',
     'srfft_test transforms one vector of one size.',
     ['src/srfft.cc', 'src/srfft.h'],
     [('split radix butterflies', 'src/srfft.cc SRFFT::ComputeRecursive'), ('packing of real data', 'src/srfft.cc SRFFT::Compute'), ('tables', 'src/srfft.cc SRFFT::ComputeTables')],
     ['SRFFT::Compute'],
     'Random sizes; noise, impulses, cosines, sparse and zero vectors at three levels. Non-trivial: not all zero.',
     'Differential test against a double precision DFT, and round trip.', ['tolerance proportional to the norm of the data'])

prop('C14', 'PCM bytes become exactly the samples they encode',
     'Any cutting of a byte stream, also inside samples, yields each sample once, in order and with its exact value: 8-bit unsigned minus 128, 16- and 32-bit signed little endian. '
     'Only mono 16 kHz in 8, 16 or 32 bits is accepted as format; calls without format, data or bytes fail and change nothing. '
     'Reset starts a new stream, independent streams do not mix.',
     ['inputs', 'histories'],
     'All byte streams and cuttings, all formats.',
     'pcm_reader_test reads one 16-bit file.',
     ['src/pcm_reader.cc', 'src/pcm_reader.h'],
     [('incomplete samples', 'src/pcm_reader.cc WaveReader::Process'), ('format check', 'src/pcm_reader.cc WaveReader::SetFormat')],
     ['WaveReader::Process', 'WaveReader::SetFormat', 'WaveReader::Reset'],
     'Random bytes with edge values in pieces of 1-60 bytes or of up to hundreds of kilobytes, 1-2 interleaved readers, rejected calls in between; formats from supported and near-miss values. Non-trivial: more than one sample; every format case.',
     'Reference decoder, exact equality, AddressSanitizer on exactly sized buffers.')

prop('C15', 'WAV headers are accepted exactly when they are valid',
     'A canonical 44-byte header with consistent fields is accepted, its channels, rate and bits are reported and the file is left at the first sample; reading the whole 16 kHz mono file gives exactly its samples. '
     'A header that is truncated, has a wrong tag, a format chunk size other than 16, an audio format other than PCM, or inconsistent byte rate or block alignment is rejected.',
     ['inputs', 'fault_sequences'],
     'All headers over the listed fields and faults.',
     'pcm_reader_test reads one valid file.',
     ['src/pcm_reader.cc'],
     [('header checks', 'src/pcm_reader.cc ReadPcmHeader'), ('whole files', 'src/pcm_reader.cc Read16kPcm')],
     ['ReadPcmHeader', 'Read16kPcm'],
     'Headers with random rate, bits and channels, intact or with one fault out of nine kinds, followed by 0-40 bytes of data. Every case counts as non-trivial.',
     'Reference predicate over the generated header fields.',
     ['block alignment and byte rate are those of one channel, as the code demands', 'chunks after the data are out of scope'])

prop('C16', 'The acoustic model gives one row per frame with clamped context',
     'For every stream of n feature rows, the acoustic model delivers exactly n rows of log-likelihood ratios (network output minus log prior), where row t is computed from rows t-left..t+right with the first and last row repeated beyond the ends. '
     'This holds for every context width, chunk size and stream length, streams shorter than context or chunk included, and for interleaved streams on one model.',
     ['inputs', 'histories', 'configurations'],
     'All networks with limited context, context widths, chunk sizes, stream lengths and interleavings.',
     'am_test runs one recording with one configuration.',
     ['src/am.cc', 'src/am.h', 'src/nnet.cc'],
     [('padding at the start and the end', 'src/am.cc AcousticModel::Process, EndOfStream'), ('chunks', 'src/am.cc AcousticModel::ComputeBatch')],
     ['AcousticModel::Process', 'AcousticModel::EndOfStream'],
     'Random networks with splices within the context, contexts 0-5 (sometimes 30), chunk sizes 1-60, up to 1500 outputs, priors down to e-30, 1-3 interleaved streams with lengths around the chunk edges. Non-trivial: at least one stream longer than the context.',
     'Reference model: a network applied to each frame with explicit padding, with error bounds.', ['chunk size at least 1'])

prop('C17', 'Every network layer computes its definition',
     'Linear, ReLU, normalize, softmax, log softmax, splice (with any offsets, clamped at the edges), batch norm and narrow layers compute their mathematical definition on every input, extreme values and zero rows included, without changing the input or keeping memory between calls. '
     'A network read from a file is the composition of its layers and reports its contexts.',
     ['inputs', 'programs'],
     'All layer parameters, shapes and inputs; all sequences of layers.',
     'nnet_test evaluates a few layers on one fixed matrix each.',
     ['src/nnet.cc', 'src/nnet.h', 'src/vector.cc', 'src/matrix.cc'],
     [('layers', 'src/nnet.cc *Layer::Propagate'), ('composition', 'src/nnet.cc Nnet::Propagate, Nnet::Read'), ('softmax', 'src/vector.cc ApplySoftMax, ApplyLogSoftMax')],
     ['Layer::Propagate', 'Nnet::Propagate'],
     'Random layers and networks of up to 7 layers on matrices of up to 14 rows; Gaussian, large, tiny, zero, constant inputs. Non-trivial: more than one element; more than one layer.',
     'Differential test against a double precision reference with propagated error bounds.', ['inputs on which the reference error bound is too large are discarded'])

prop('C18', 'Matrix products and quantization stay within their error bounds',
     'The float product equals the exact product within rounding, for every shape and stride, and writes nothing outside of the result. '
     'Quantizing a matrix to 8 bits and back changes an element by at most half a step, the step being no larger than the range (extended to zero when all values are positive) divided by 255, constant matrices included. '
     'The quantized product is the exact integer product of the quantized operands times the steps, and so within the bound of the float product.',
     ['inputs'],
     'All shapes up to 200, strides, views and value distributions.',
     'matrix_test multiplies a few fixed matrices; gemm_test one size.',
     ['src/matrix.cc', 'src/matrix.h', 'src/gemmlowp'],
     [('products', 'src/matrix.cc MatMat, SimpleMatMat, MatMat_U8U8F32'), ('quantization', 'src/matrix.cc Quantize')],
     ['MatMat', 'SimpleMatMat', 'Quantize', 'MatMat_U8U8F32'],
     'Random shapes (edges of the kernel sizes included), views inside larger matrices, mixed / positive / negative / constant / two-valued matrices at four levels. Non-trivial: more than one element.',
     'Differential test against exact arithmetic with analytic bounds.',
     ['relative ranges below 1e-3 and accumulators beyond 32 bits are out of scope', 'quantized operands have at least two elements'])

prop('C19', 'Vector, matrix and network files are read exactly or rejected',
     'Loading a well-formed vector, matrix or network file reproduces every element bit by bit and leaves the file at the next section. '
     'A file that is truncated, has a wrong signature, a section size or dimension that contradicts the content, negative or impossible shapes and counts, rows of another length, or an unknown layer type is reported as an error, without crash or access outside of the data.',
     ['inputs', 'fault_sequences'],
     'All element types (float, double, int32, uint8), shapes, contents and the listed kinds of damage.',
     'The tests read intact files only.',
     ['src/vector.cc', 'src/matrix.cc', 'src/nnet.cc', 'src/util.cc'],
     [('vectors', 'src/vector.cc Vector::Read'), ('matrices', 'src/matrix.cc Matrix::Read'), ('networks', 'src/nnet.cc Nnet::Read, Nnet::ReadLayer, *Layer::Read')],
     ['Vector::Read', 'Matrix::Read', 'Nnet::Read'],
     'Random contents over every bit pattern, 1-4 sections per file, intact or damaged in one of 5-7 ways. Every case counts as non-trivial.',
     'Round trip against the generated content, fault injection in the bytes, AddressSanitizer.', ['empty vectors are not part of the format'])

prop('C20', 'A model is loaded completely or refused with an error',
     'ce_stt_init succeeds for every complete and consistent model. '
     'It returns NULL with a non-empty ce_stt_last_error, and neither crashes nor exits, when the configuration is missing or malformed, any required key or referenced file is missing, any binary file is truncated anywhere or has a wrong signature, an integer setting is no integer, or the symbol table is malformed.',
     ['inputs', 'fault_sequences', 'configurations'],
     'All complete models with and without language model, and single faults of the listed kinds at every position.',
     'No stable test loads a model through ce_stt_init, none loads a damaged one.',
     ['src/ce_stt.cc', 'src/am.cc', 'src/configuration.cc', 'src/symbol_table.cc', 'src/fst.cc', 'src/vector.cc', 'src/nnet.cc'],
     [('every step returns a status', 'src/ce_stt.cc ce_stt_init'), ('validation in the readers', 'src/*.cc *::Read')],
     ['ce_stt_init', 'ce_stt_last_error'],
     'Random complete models, intact or with one fault in any of the files (cut at any byte, signature bit flip, missing, missing key, non-integer value, malformed symbol table line, malformed configuration). Non-trivial: damaged.',
     'Fault injection with the expected verdict known by construction, AddressSanitizer.',
     ['counts inside of the OpenFst graph file are not damaged: the bundled OpenFst does not check them'])

prop('C21', 'Configuration files mean what they say',
     'After reading a file of key = value lines, comments and blank lines, each key (in any case) yields the value of its last line with blanks trimmed; paths that are not absolute are resolved against the directory of the file; integers are returned for integral values, and a missing key, a non-numeric or out-of-range integer is an error or the given default. '
     'A malformed line makes reading fail with an error that names the file.',
     ['inputs'],
     'All files over the grammar, with any line lengths, line ends and encodings.',
     'configuration_test reads one file of a few keys.',
     ['src/configuration.cc', 'src/configuration.h', 'src/util.cc'],
     [('parsing', 'src/configuration.cc Configuration::Read'), ('access', 'src/configuration.cc GetString, GetInteger, GetPath and their OrElse variants')],
     ['Configuration::Read', 'Configuration::GetString', 'Configuration::GetInteger', 'Configuration::GetPath'],
     'Files of up to 9 lines (duplicates, case changes, long values, inner blanks, no final newline, CR LF, malformed lines, file without directory) and long files with thousands of lines; every key of the universe is queried by every accessor. Non-trivial: two or more keys, or malformed.',
     'Reference model (a map).', ['values with a numeric prefix ("1x") may be accepted or not'])

prop('C22', 'Symbol tables map both ways exactly as the file says',
     'After reading a file of "word id" lines, looking up a word gives its id, looking up an id gives its word, unused ids give the empty word and unknown words the not-found value; sentence start and end have the ids of <s> and </s>. '
     'A line without exactly two fields, an id that is negative, out of range or no number, or a table without <s> or </s> is rejected.',
     ['inputs'],
     'All tables with ids in any order, with gaps, duplicates, long and non-ASCII words, with or without final newline.',
     'symbol_table_test looks up a few words of one table.',
     ['src/symbol_table.cc', 'src/symbol_table.h'],
     [('parsing and buffers', 'src/symbol_table.cc SymbolTable::Read'), ('lookup', 'src/symbol_table.cc SymbolTable::Get, GetId')],
     ['SymbolTable::Read', 'SymbolTable::Get', 'SymbolTable::GetId'],
     'Tables of up to 33 words with sequential or sparse ids up to 200000, an eighth with a malformed line, and tables of up to 140000 words. Non-trivial: more than three rows, or rejected.',
     'Reference model (two maps), AddressSanitizer.')

prop('C23', 'The hash table is a map',
     'After any sequence of insertions (overwriting included), lookups and clears, a lookup gives the value inserted last for the key since the last clear, or the default when there is none. '
     'This holds for every initial capacity, any key values, keys that collide in any way, and across growth.',
     ['histories', 'inputs'],
     'All histories over int keys and over keys with chosen hash values, capacities 1-4000, up to 400000 keys.',
     'hashtable_test inserts a few keys.',
     ['src/hashtable.h', 'src/hashtable.cc'],
     [('probing', 'src/hashtable.h HashTable::Find, Insert'), ('growth', 'src/hashtable.h'), ('sizes', 'src/hashtable.cc gPrimeNumbers')],
     ['HashTable::Insert', 'HashTable::Find', 'HashTable::Clear'],
     'Histories of up to 250 operations over dense, congruent (modulo present and later sizes), random and extreme keys, or keys on 1-6 hash values; large tables with strided keys. Non-trivial: at least 3-4 keys at once.',
     'Model-based generation against std::unordered_map, with a CPU limit per case for endless probing.')

prop('C24', 'Pools never lose, share or resurrect objects',
     'Whatever the sequence of allocations, releases and clears, every live object keeps its content and has an address of its own, every object is constructed and destroyed exactly once, and the counts reported match. '
     'A collection keeps every node reachable from the roots through the previous links, destroys all others exactly once after notifying them, and leaves the roots unmarked for the next one.',
     ['histories'],
     'All histories over block sizes 1-4096, node graphs of any shape and root sets.',
     'pool_test makes a few allocations of one size.',
     ['src/pool.h'],
     [('free list and blocks', 'src/pool.h Pool'), ('mark and sweep', 'src/pool.h GCPool::GC')],
     ['Pool::Alloc', 'Pool::Dealloc', 'Pool::Clear', 'GCPool::GC'],
     'Histories of up to 40 steps with bulk allocations beyond a block, and pools of up to 800000 nodes in long chains; instrumented element types record construction, destruction and notification. Non-trivial: more live objects than a block holds, or cleared, or collected.',
     'Model-based generation, with AddressSanitizer and once without.')

prop('C25', 'Sliding mean normalization follows its definition',
     'Normalizing the frames of an utterance in order subtracts from each the mean over at most the last 600 frames up to it, smoothed by up to 200 frames worth of the global statistics while fewer than 600 frames have been seen. '
     'The result does not depend on the matrices after construction nor on other normalizers.',
     ['inputs'],
     'All utterances of 1-1500 frames, feature levels and global statistics.',
     'cmvn_test normalizes one recording shorter than the window.',
     ['src/cmvn.cc', 'src/cmvn.h'],
     [('window', 'src/cmvn.cc CMVN::GetFrame'), ('smoothing', 'src/cmvn.cc CMVN::SmoothStats')],
     ['CMVN::GetFrame'],
     'Random features with drift at three levels, lengths below, around and beyond the window, five global counts. Non-trivial: more than one frame.',
     'Reference implementation in double precision with accumulated rounding bounds.', ['frames are asked for in order'])

prop('C26', 'Vectors and matrices behave like arrays of their values',
     'After any history of resizing (with zeroing, copying or neither), copying, moving, swapping, transposing, views and element access, dimensions and elements are those of a plain array; views alias their owner and never reach beyond it, and resizing with copy keeps the common part and zeroes the rest. '
     'Element-wise operations and the dot product match double precision arithmetic.',
     ['histories', 'inputs'],
     'All histories over up to 3 vectors or 2 matrices of each element type, all strides and views.',
     'vector_test and matrix_test check a few fixed operations.',
     ['src/vector.cc', 'src/vector.h', 'src/matrix.cc', 'src/matrix.h'],
     [('memory', 'src/vector.cc Init, Destroy, Resize; src/matrix.cc Init, Destroy, Resize'), ('views', 'src/vector.h SubVector, src/matrix.h SubMatrix')],
     ['Vector', 'Matrix', 'SubVector', 'SubMatrix'],
     'Histories of up to 25-40 operations on float, double, int32 and uint8 containers, and 10 arithmetic operations on aligned and unaligned views. Non-trivial: at least 4-5 operations; more than one element.',
     'Model-based generation against plain arrays, AddressSanitizer.')

prop('C27', 'The command line program prints what the library recognizes',
     'For a WAV file it prints its hypothesis, for a list its "name hypothesis" lines in order, each equal to what the library gives for the samples of that file decoded alone, and exits with 0. '
     'A missing or damaged model, list or audio file, a malformed list line, an unsupported format or wrong usage ends with a message and a non-zero exit status after the results of the files before it, without crash. '
     'Output that cannot be written ends with a non-zero exit status.',
     ['inputs', 'fault_sequences', 'configurations'],
     'All lists of any length (beyond the number of files a process may open included) in all sample sizes (lengths around the read buffer), and one fault of the listed kinds at any position.',
     'No test runs the program.',
     ['src/main.cc', 'src/ce_stt.cc', 'src/pcm_reader.cc'],
     [('reading the file in buffers', 'src/main.cc'), ('list lines', 'src/main.cc'), ('errors', 'src/util.h, src/main.cc')],
     ['standard output', 'exit status'],
     'The program built from the same tree runs in a process of its own on random models, files and lists, nine modes, some with an output device that is full. Non-trivial: a word recognized or a fault.',
     'Differential test of the program against the library in process.', ['models do not make the library print warnings'])

prop('C28', 'Memory and file handles are given back, and long streams need bounded memory',
     'Creating, using, abandoning and destroying recognizers and utterances any number of times, also when initialization or a call fails, leaves no memory allocated and no file open. '
     'While a stream goes on whose live word histories stay short, memory does not grow with the length of the stream.',
     ['histories', 'fault_sequences', 'configurations'],
     'All lives of a recognizer (models with any single fault included) repeated; streams of thousands of frames.',
     'The tests free nothing they check and run no leak checker.',
     ['src/ce_stt.cc', 'src/decoder.cc', 'src/pool.h', 'src/util.cc', 'src/vector.cc', 'src/matrix.cc', 'src/fbank.cc', 'src/pcm_reader.cc'],
     [('owners', 'src/ce_stt.cc ce_stt_destroy, ce_utt_destroy'), ('pools', 'src/pool.h'), ('files', 'src/util.cc ReadableFile')],
     ['allocated bytes', 'open file descriptors'],
     'A random life (faulty or intact model, 0-2 utterances, abandoned or ended, rejected calls, bad WAV headers) is repeated and the heap and descriptors compared after the first and the fourth; decoders over 6000 frames (also with weights that make hypotheses leave the beam after they were created) and utterances of 300 pieces are compared between an early and the last point. Non-trivial: a fault or at least one utterance.',
     'Metamorphic relation over repetitions, measured by the AddressSanitizer allocator.', ['a warm-up repetition may allocate static data'])

prop('C29', 'Conversion tools write what the loaders read back unchanged',
     'For every valid Kaldi text input, the files written by convert_trans.py, convert_cmvn_stats.py, convert_unigram.py (also after prune_lm.py), convert_fstfmt.py and convert_am.py are accepted by the loaders of the library and carry the same content: transition map, statistics, natural-log unigram costs per word, language model states and costs, network function, contexts and priors.',
     ['inputs', 'programs'],
     'All transition tables, statistics, ARPA files of order 1-3, vocabularies, language models and nnet3 networks of the supported components.',
     'The tools have no tests.',
     ['tool/convert_trans.py', 'tool/convert_cmvn_stats.py', 'tool/convert_unigram.py', 'tool/prune_lm.py', 'tool/convert_fstfmt.py', 'tool/convert_am.py', 'src/vector.cc', 'src/fst.cc', 'src/nnet.cc'],
     [('writers', 'tool/*.py'), ('readers', 'src/vector.cc, src/fst.cc, src/nnet.cc')],
     ['Vector::Read', 'Fst::Read', 'Nnet::Propagate'],
     'Random text inputs are converted by running the tools and loaded by the library; values, queries and network outputs are compared with the generated content. Every case counts as non-trivial.',
     'Round trip through tool and loader against the generated content.',
     ['pywrapfst is replaced by a small stand-in that reads the same states and arcs', 'the format convert_words.py writes has no loader any more: see C08'])

prop('C30', 'Files and strings are read and split without loss',
     'Reading a file line by line gives every line without its line end, of any length, the last one with or without newline, then one end of file and errors after it; binary reads give the exact bytes or an error, and a signature check succeeds exactly on equal bytes. '
     'Trim, split, lower case, number parsing, bounded copy and message formatting match their definition on every string, and an error keeps its kind and message.',
     ['inputs', 'histories'],
     'All byte contents, line lengths up to 12000, read sequences and strings.',
     'util_test reads one small file and a few strings.',
     ['src/util.cc', 'src/util.h', 'src/strlcpy.cc'],
     [('lines', 'src/util.cc ReadableFile::ReadLine'), ('bytes', 'src/util.cc ReadableFile::Read, ReadAndVerifyString'), ('strings', 'src/util.cc Trim, Split, Tolower, StringToLong; src/util.h Format')],
     ['util::ReadableFile', 'util::Trim', 'util::Split', 'util::Format'],
     'Files of up to 8 lines with lengths around buffer sizes, and files of many thousand lines; random binary read sequences; random strings over blanks, delimiters and multi-byte characters. Non-trivial: several lines, a short read, several placeholders or longer strings.',
     'Reference model.', ['lines contain no NUL bytes'])

prop('C31', 'Failed calls of the library report an error and change nothing',
     'Calls with a missing utterance, missing data or a size below one, an unsupported format, an unreadable model or an invalid WAV header fail with their documented return value and leave a message in ce_stt_last_error that does not depend on what failed before. '
     'A running utterance is not affected: its hypothesis, score and all later results are those it would have had without the failed calls.',
     ['histories', 'fault_sequences'],
     'All sequences of up to 12 failing calls mixed into the decoding of an utterance.',
     'No test makes a failing call on the public interface.',
     ['src/ce_stt.cc', 'src/pcm_reader.cc'],
     [('argument checks', 'src/ce_stt.cc ce_stt_process, ce_utt_init, ce_stt_end_of_stream, ce_read_pcm_header'), ('message', 'src/ce_stt.cc ce_stt_last_error')],
     ['ce_stt_last_error', 'return values', 'ce_utt_t'],
     'Ten kinds of failing calls at random positions of a chunked decoding. Non-trivial: at least one failing call.',
     'Metamorphic relation with and without the failed calls.')

prop('C32', 'Recipe scripts hand on exactly their inputs, wherever they run, or fail',
     'compute-cer.sh lets compute-wer compare the reference with exactly the character form of the given hypothesis, for files in any directory and of any name, also while another run is going on, and passes on its output and success. '
     'mkgraph_hcl.sh, started in any recipe directory, builds the decoding graph from the unigram part of the given language model, and lm.1order.bin and G.pfst from its unigram costs and from the full model, leaving nothing of an earlier run. '
     'When an input is missing or damaged or a step fails, the script ends with an error, no hypothesis is scored and no G.pfst is written.',
     ['inputs', 'fault_sequences', 'configurations'],
     'All file names and directories, language models of order 1-3, and failures of each single step.',
     'The scripts have no tests; the recipes they belong to need Kaldi.',
     ['tool/compute-cer.sh', 'tool/conv_chartok.sh', 'tool/mkgraph_hcl.sh', 'tool/prune_lm.py', 'tool/convert_unigram.py', 'tool/convert_fstfmt.py'],
     [('error rate', 'tool/compute-cer.sh'), ('graph', 'tool/mkgraph_hcl.sh')],
     ['what the stand-ins of compute-wer, format_lm.sh, mkgraph.sh and arpa2fst are given', 'exit status', 'lm.1order.bin', 'G.pfst'],
     'Scratch recipe directories with stand-ins for the Kaldi programs that record their inputs and fail on request; names with blanks, quotes and other characters; a second run started in the middle of the first. Every case counts as non-trivial.',
     'Comparison of the recorded inputs and the outputs with the generated content; injected failures.',
     ['the Kaldi programs are replaced by stand-ins'])

prop('C33', 'Conversion tools refuse damaged input',
     'convert_trans.py, convert_cmvn_stats.py, convert_words.py, prune_lm.py, convert_unigram.py and convert_am.py end with an error, and not with a table or model that differs from what was meant, when their input is truncated (as far as its format shows it), has missing, repeated, non-numeric or out of range entries, or dimensions that contradict each other. '
     'Wrong usage, a missing input and an output that cannot be written, or not completely, are errors of all the tools, and intact input is converted.',
     ['inputs', 'fault_sequences'],
     'All single faults of the listed kinds in transition maps, statistics, word lists, ARPA files of order 1-2, vocabularies and small nnet3 networks.',
     'The tools have no tests.',
     ['tool/convert_trans.py', 'tool/convert_cmvn_stats.py', 'tool/convert_words.py', 'tool/prune_lm.py', 'tool/convert_unigram.py', 'tool/convert_am.py', 'tool/convert_fstfmt.py'],
     [('checks', 'tool/*.py')],
     ['exit status'],
     'An intact input is generated and damaged at a random place in one of about 45 ways. Non-trivial: the input or usage is damaged.',
     'The tool has to fail exactly for damaged input.')

prop('C34', 'A model converted as documented recognizes like the model it came from',
     'When the text files of a Kaldi model (nnet3 network with priors, transition to pdf table, word list, ARPA unigram model, large language model, decoding graph) are converted with the tools and put together with a configuration as doc/convert_model.md describes, using the contexts and the number of pdfs the tools print, '
     'the recognizer loads it, and its hypothesis and score for any audio are those of the original model: no path of the graph within the beam is cheaper under the network, the priors and the language models of the text files.',
     ['inputs', 'programs', 'configurations'],
     'All models of the components convert_am.py supports on 40-dimensional features, with and without language models, and audio in 8, 16 and 32 bits.',
     'The tools have no tests, and no test goes from a converted model to a recognition result.',
     ['tool/convert_am.py', 'tool/convert_trans.py', 'tool/convert_unigram.py', 'tool/prune_lm.py', 'tool/convert_fstfmt.py', 'doc/convert_model.md', 'src/ce_stt.cc', 'src/am.cc', 'src/nnet.cc', 'src/fst.cc', 'src/decoder.cc'],
     [('writers', 'tool/*.py'), ('loading and recognition', 'src/ce_stt.cc ce_stt_init, ce_stt_process')],
     ['what the tools print', 'ce_utt_t.hyp', 'ce_utt_t.loglikelihood_per_frame'],
     'Random models written as Kaldi text, converted by running the tools, loaded by ce_stt_init and given random audio in pieces; the cost of the result is judged by the reference of the whole pipeline (see C07) fed with the values of the text files. Non-trivial: more than one word in the result.',
     'Differential test of tools and recognizer together against an independent reference of the model as its text states it.',
     ['pywrapfst is replaced by a small stand-in that reads the same states and arcs', 'inputs on which the reference error bound is too large are discarded', 'the decoding graph is used as it is'])

prop('C35', 'A damaged or mismatched model is refused or harmless',
     'ce_stt_init refuses, with a non-empty ce_stt_last_error, a model whose parts contradict each other: dimensions of network layers, biases, priors and num_pdfs that do not fit, contexts that are not those of the network, a chunk_size below 1, transitions to pdfs that do not exist, a graph with transitions or words that do not exist, '
     'and a language model with states or words that do not exist or with a loop of back-off arcs. '
     'Whatever numbers the network, prior, transition and language model files hold and whatever files of different models are put together, the recognizer is refused or takes any audio to the end: it does not crash, hang or leave the memory of its objects, and its hypothesis consists of words of the symbol table.',
     ['inputs', 'fault_sequences', 'configurations'],
     'All models with one contradiction of the listed kinds at any place, with up to four damaged numbers or bits in any of the listed files, or with any mixture of the files of two models.',
     'No test loads a damaged or mismatched model.',
     ['src/ce_stt.cc', 'src/am.cc', 'src/nnet.cc', 'src/fst.cc', 'src/decoder.cc', 'src/symbol_table.cc'],
     [('checks at loading', 'src/ce_stt.cc ce_stt_init'), ('acoustic model', 'src/am.cc AcousticModel::Verify'), ('language model', 'src/fst.cc LmFst::Verify, Fst::Read'), ('graph', 'src/ce_stt.cc VerifyHclgFst')],
     ['ce_stt_init', 'ce_stt_last_error', 'ce_stt_process', 'ce_stt_end_of_stream', 'ce_utt_t.hyp'],
     'Random complete models: one part changed so that it contradicts the others (20 kinds, verdict known by construction), or random numbers and bits changed in the files, or files of a second model put in; accepted ones decode random audio under AddressSanitizer. Non-trivial: contradicting, or damaged and accepted.',
     'Fault injection: verdict known by construction for contradictions; memory safety, termination and known words for the rest.',
     ['the bytes of the OpenFst graph file are not damaged (the bundled OpenFst does not check its counts), its labels are'])
