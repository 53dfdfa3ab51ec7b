NOTES = {}
INP = ['inputs']

prop('C01', 'Header validity predicate and nearest valid header search',
     'A byte string is accepted as a header exactly when it is six bytes, starts with the frame marker, and its length byte is '
     'the wire payload length of the message its id byte names. For any six bytes and any limit, the nearest-header search '
     'names a message whose payload respects the limit and reports the true minimum Hamming distance over all valid headers '
     'that do; with no candidate it names none.',
     INP + ['configurations'], 'all 2^48 six-byte buffers; all length limits including none; all wrong-size buffers',
     'Tests try a handful of headers and limits; the minimum over every message and every corruption pattern is a '
     'universally quantified claim.',
     ['protocol_meta/msg_header.py', 'protocol_meta/protocol_meta.py'],
     [('is_valid_header', 'protocol_meta/msg_header.py'), ('hamming_2_valid_header', 'protocol_meta/msg_header.py')])

prop('C02', 'Frame headers: construction, parsing and rejection are exact',
     'A header built from in-range ids occupies six bytes in wire order and its accessors return exactly the given fields; '
     'parsing any six bytes keeps their sequence, system, component and message id and repairs marker and length, and a forced '
     'id replaces id and length only. Every out-of-range field, unknown message id or wrong buffer size is rejected with an '
     'error, never accepted silently.',
     INP, 'all field values in and around the byte range, all six-byte buffers, all forced ids, other buffer sizes',
     'Tests construct a few headers; acceptance and rejection must agree for every combination of four fields.',
     ['protocol_meta/msg_header.py'], [('FrameHeader', 'protocol_meta/msg_header.py')])

prop('C03', 'Hamming distance is the exact number of differing bits',
     'For equal-length operands of any supported kind (byte strings, bit arrays, bit strings, integers) the reported distance '
     'is the exact number of differing bits, symmetric and zero only for equal operands. Operands of different lengths, '
     'integers that do not fit the stated width, and unsupported kinds raise an error.',
     INP, 'all pairs of values of each operand kind up to the size bounds',
     'Tests compare a few literals; a carry, mask or width slip shows only for particular bit patterns.',
     ['utils/bit_operations.py'], [('hamming_distance', 'utils/bit_operations.py')])

prop('C04', 'Segmentation reports exactly the CRC-valid frames of a buffer',
     'Scanning a received buffer reports a message at a byte exactly when a complete frame with consistent header and correct '
     'checksum starts there outside an earlier reported frame, and labels header, payload and checksum bytes of it. All other '
     'bytes stay unknown and bits are marked valid exactly inside reported frames; corrupted or truncated data never raises '
     'and never yields a message.',
     INP + ['fault_sequences'], 'all contents of short buffers; streams of frames with arbitrary ids, payload, checksum and gap bytes',
     'Tests use one fixed telemetry buffer with a few hand-made errors; a missed or phantom frame depends on the particular '
     'bytes.',
     ['inference/buffer_segmentation.py', 'protocol_meta/msg_header.py', 'mavlink_utils/HC_dialect.py'],
     [('BufferSegmentation.segment_buffer', 'inference/buffer_segmentation.py')])

prop('C05', 'Undecoded parts are exactly the maximal unknown runs',
     'For any labelling of a buffer, the reported undecoded parts are exactly its maximal runs of unknown bytes: each starts where '
     'the run starts and contains all and only its bytes, in order. A fully decoded buffer reports none.',
     INP, 'all labellings and contents of buffers within the size bound, and labellings produced by scanning symbolic streams',
     'Tests look at one buffer with a few gaps; boundary runs (first byte, last byte, adjacent messages) are where it breaks.',
     ['inference/buffer_segmentation.py'], [('BufferSegmentation.bad_buffer_parts', 'inference/buffer_segmentation.py')])

prop('C06', 'Buffer structures: adherence and registration',
     'A buffer adheres to a structure exactly when, at every listed offset, a complete header fits and its id byte is the listed '
     'known message; short or corrupted buffers simply do not adhere and never raise. Registering a buffer accepts '
     'exactly the adhering ones, counts them and keeps them in order; structures are equal exactly when the same messages sit at the '
     'same places, whatever was received.',
     INP + ['histories'], 'all buffer contents and structure ids, short buffers, all registration orders within bounds',
     'Tests register two structures and test two buffers.',
     ['inference/buffer_segmentation.py'], [('BufferStructure', 'inference/buffer_segmentation.py')])

prop('C07', 'Frame codec: packing and decoding are inverse, corruption is detected',
     'Every message packed with in-range field values decodes to the same message type, header fields and field values, and the '
     'frame has the wire layout and checksum of the protocol. A frame with a wrong marker, length, id or checksum, in particular '
     'any one to three flipped bits or any burst up to 16 bits, is rejected with the protocol error and never decoded.',
     INP + ['fault_sequences'], 'all payloads and header ids of the listed messages; all error patterns of the stated classes',
     'Detection of every error pattern is universally quantified over positions and payloads; tests try a handful.',
     ['mavlink_utils/HC_dialect.py'], [('MAVLink.decode', 'mavlink_utils/HC_dialect.py'), ('MAVLink_message.pack', 'mavlink_utils/HC_dialect.py')])

prop('C08', 'Protocol metadata matches the wire format; field reports are exact',
     'For every message id the metadata reports a payload length and an over-the-air field order equal to what the dialect puts on '
     'the wire, and knows an id exactly when the dialect does. The field report of a received buffer contains, for every '
     'checksum-valid frame and nothing else, its type and all field values; a buffer without frames gives an empty report.',
     INP + ['configurations'], 'all message ids; all payload and checksum bytes of one- and two-frame buffers',
     'Tests compare a few messages; a wrong length of a rarely used message shows only on its frames.',
     ['protocol_meta/protocol_meta.py', 'inference/buffer_segmentation.py', 'mavlink_utils/HC_dialect.xml'],
     [('MavlinkDialectMeta', 'protocol_meta/protocol_meta.py'), ('get_msg_fields', 'inference/buffer_segmentation.py')])

prop('C09', 'Field map and field values of a buffer agree bit by bit',
     'For any structure of messages without array fields, every bit of a buffer is mapped to the field that owns it on the wire '
     '(or to none), names, types and values come in the same order, bytes and bit arrays give the same values, and converting a '
     'value back to bits yields exactly the bits of that field. Numbers are rounded to nearest, negatives of unsigned fields become '
     'zero, and a number that does not fit its field is rejected.',
     INP, 'all buffer contents for the listed structures; all values of every integer field type',
     'There is no unit test of the field map; an off-by-one or byte-order slip shows only for specific fields and values.',
     ['inference/statistical_models.py'],
     [('BufferModel.unpack_structure', 'inference/statistical_models.py'), ('BufferModel.unpack_values', 'inference/statistical_models.py'),
      ('num2bits', 'inference/statistical_models.py')])

prop('C10', 'Field model: window, moments and outlier probability',
     'After any history of single and list additions a field model holds exactly the most recent samples up to its window, its mean '
     'and spread are those of exactly these samples and never stale, and the outlier probability of a value is the two-sided '
     'Gaussian tail of its distance (all or nothing when the history is constant). The bits of the mean are those of the rounded mean.',
     INP + ['histories'], 'all histories within the length bound, all windows, all sample values within ranges',
     'No unit tests; staleness and window slips need particular interleavings of additions and queries.',
     ['inference/statistical_models.py'], [('FieldModel', 'inference/statistical_models.py')])

prop('C11', 'Buffer model: learning, prediction and persistence',
     'Feeding buffers (bytes or bits) adds to each field exactly the value of that field in each buffer, keeps the most recent ones '
     'up to the window, and counts buffers up to the window. Predictions give every bit the probability and spread of its own field '
     'and none outside fields or for fields never seen; damaged fields are exactly those hit by an error; bit means are those of the '
     'field means. Saving and loading preserves every sample, type, window, size and description.',
     INP + ['histories'], 'all buffer contents and histories within bounds, all error positions, all windows listed',
     'No unit tests; loss across save and load or a wrong owner of a bit shows only for particular fields.',
     ['inference/statistical_models.py'], [('BufferModel', 'inference/statistical_models.py')])

prop('C12', 'Empirical distributions, entropy and distribution distance are exact',
     'The estimated distribution of any integer data has exactly the observed symbols (or the stated alphabet) in increasing order with '
     'their relative frequencies, per dimension for two-dimensional data; floating-point data and other shapes are rejected. Entropy is '
     'the Shannon entropy per row, zero exactly for constant data; the Hellinger distance is symmetric, a number in [0, 1], zero '
     'for equal and one exactly for disjoint distributions. Typical-set bounds are those of the asymptotic equipartition property.',
     INP, 'all data of bounded size and alphabet, all distributions with bounded denominators',
     'Tests check a few literal distributions; rounding and missing symbols show only for particular data.',
     ['utils/information_theory.py'], [('prob_with_alphabet', 'utils/information_theory.py'), ('hellinger', 'utils/information_theory.py')])

prop('C13', 'Decoders learn exact windowed bit statistics',
     'After any sequence of training buffers every learning decoder holds, for each model bit, exactly the frequencies of zero and one among '
     'the most recent buffers up to its window (unfolded through the known bit-flip rate and clipped, where one is set) and the '
     'entropy of that distribution, separately per cluster. A buffer of the wrong length is refused and changes nothing, and a given model '
     'is never learned over.',
     INP + ['histories'], 'all contents of all histories within bounds, windows, clusters, bit-flip rates',
     'No unit tests of learning; constant data, window edges and cluster mix-ups need particular histories.',
     ['decoders/entropy_bitwise_decoder.py', 'decoders/classifiying_decoder.py', 'decoders/combined_decoder.py', 'decoders/combined_unified_decoder.py'],
     [('EntropyBitwiseDecoder.update_model', 'decoders/entropy_bitwise_decoder.py'),
      ('ClassifyingEntropyDecoder.update_model', 'decoders/classifiying_decoder.py')])

prop('C14', 'Model evidence touches only steady bits, towards the learned value',
     'Rectifying with a learned or given bit model changes only model bits whose entropy is below the threshold: soft values get the '
     'log-likelihood ratio of the model, weighted by confidence and limited by the clipping factor times the strongest channel value, and '
     'hard bits take the majority value. All other bits, and the observation passed in, stay untouched; with too little data nothing changes.',
     INP + ['histories', 'configurations'], 'all training histories, observations, thresholds and confidence schemes within bounds',
     'No unit tests; sign, clipping and index slips show only for particular combinations of data and observation.',
     ['decoders/entropy_bitwise_decoder.py', 'decoders/classifiying_decoder.py', 'decoders/combined_decoder.py', 'decoders/combined_unified_decoder.py'],
     [('EntropyBitwiseDecoder.model_prediction', 'decoders/entropy_bitwise_decoder.py'),
      ('EntropyBitwiseWeightedDecoder.model_prediction', 'decoders/entropy_bitwise_decoder.py')])

prop('C15', 'Entropy decoders: second attempt, reported result and training data',
     'A buffer the channel decoder recovers is returned as is; otherwise it is tried exactly once more with the rectified word, and the '
     'outcome of that attempt is returned with the number of messages it contains. Good models learn exactly the buffers all of whose bytes '
     'parsed as messages; the fallback model of the weighted decoder learns the decoded bits, or the hard channel bits when both decoding and parsing '
     'failed. The channel word is never modified.',
     INP + ['histories', 'fault_sequences'], 'all decoder outcomes (estimates, success flags), checksums and channel values within bounds',
     'The decoders have no behavioural unit tests; training on a damaged buffer shows only after particular outcome sequences.',
     ['decoders/entropy_bitwise_decoder.py'],
     [('EntropyBitwiseDecoder.decode_buffer', 'decoders/entropy_bitwise_decoder.py'),
      ('EntropyBitwiseWeightedDecoder.decode_buffer', 'decoders/entropy_bitwise_decoder.py')])

prop('C16', 'Classifying decoder: cluster choice, decoder input and training data',
     'While the classifier is being trained buffers are decoded as received and nothing is learned; afterwards each buffer is decoded with the '
     'evidence of its own cluster only (clusters take turns when clustering is off), combined with the channel values as each kind of channel '
     'decoder needs. Then that cluster, and no other, learns the recovered bits, or the hard channel bits if decoding failed; '
     'the result, the cluster model and label are returned and the channel word is never modified.',
     INP + ['histories', 'configurations'], 'all channel values, decoder outcomes and training histories within bounds; three kinds of channel decoder',
     'No unit tests; cross-talk between clusters or a wrong decoder input needs particular streams.',
     ['decoders/classifiying_decoder.py'], [('ClassifyingEntropyDecoder.decode_buffer', 'decoders/classifiying_decoder.py')])

prop('C17', 'Clustering: learning phase, merging, assignment and cluster statistics',
     'During the learning phase no cluster is named and every buffer is kept; then clusters are merged, nearest pair first under the chosen '
     'distance and weighting, until the wanted number is left. Afterwards every buffer is assigned to, and counted by, the cluster nearest to it (by Hamming distance the first of equally near ones). '
     'A cluster always reports the exact bit frequencies and number of the buffers put into it, its representative bits being the majority bits (zero on ties).',
     INP + ['histories', 'configurations'], 'all streams of short buffers within bounds; both assignment metrics, both merge distances, all weightings',
     'Tests run random buffers of very different classes; counts drift and wrong merges show only for particular streams.',
     ['inference/clustering.py'], [('BufferClassifier.classify', 'inference/clustering.py'), ('Cluster', 'inference/clustering.py')])

prop('C18', 'Context denoisers minimise expected loss given the counts seen in context',
     'The two-sided denoiser of a sequence and the online one-sided denoiser count how often each symbol occurred in each context (whole sequence, or up to now), '
     'correct the counts for the channel, and return the decision of least expected loss, or the smoothed posterior, with its cost. Symbols without a full '
     'context are kept at zero cost, the observations are never changed, and symbols outside of the alphabet are refused by the online denoiser and count nowhere.',
     INP + ['histories', 'configurations'], 'all short sequences over two or three symbols, context lengths 0..2, several channels and losses, hard and soft decisions',
     'Tests denoise one random sequence and look at the error rate only.',
     ['inference/dude.py'], [('OnlineDude.denoise_sample', 'inference/dude.py'), ('DUDE.denoise_sequence', 'inference/dude.py')])

prop('C19', 'Entropy-aided denoiser: windowed bit model, corrected for the channel',
     'The model holds, for each bit, the frequency over exactly the last buffers of its window, corrected for the channel flip rate and kept within 0 and 1. '
     'Denoising a buffer, given as bits or soft values, adds the confidence-weighted log odds of the model learned so far to bits whose entropy is below the threshold '
     'and to no others, reports the number of bits that changed, and then learns the received bits; the buffer itself is not changed.',
     INP + ['histories', 'configurations'], 'all histories and observations within bounds, windows, flip rates and thresholds',
     'Tests denoise one random stream and compare error rates.',
     ['inference/entropy_mle.py'], [('EMLE', 'inference/entropy_mle.py')])

prop('C20', 'Turbo decoding passes on only what each decoder learned, and stops at success',
     'In every round each component decoder is given the channel values plus only what the other one learned (its soft output less its input). '
     'Decoding stops at the first success of either and returns its outcome; otherwise the last outcome is returned after the allowed rounds. '
     'The channel word is never changed, whatever the component decoders do with theirs; when debugging, the number of bits still wrong is exact.',
     INP + ['histories'], 'all channel values and soft outputs, every sequence of successes and failures within bounds, all error positions',
     'Unit tests cover one lucky decoding; feedback shows only from the second round on.',
     ['decoders/turbo.py'], [('TurboDecoder.decode_buffer', 'decoders/turbo.py')])

prop('C21', 'Classification scores and bit error rate are exact',
     'For any true and predicted labels, accuracy, and precision, recall and F1 score of every class, are the textbook ratios of the confusion matrix; the precision of a class that '
     'is never predicted is one if it never occurs and else zero (as is then its F1 score). The '
     'bit error rate is the fraction of differing bits, whatever the element type of the arrays.',
     INP, 'all confusion matrices, label lists and bit arrays within bounds',
     'No unit tests; unsigned arithmetic and empty classes are the special cases.',
     ['utils/performance_analysis.py'], [('stats', 'utils/performance_analysis.py'), ('ber', 'utils/performance_analysis.py')])

prop('C22', 'Markov sources draw every sample from the row of the preceding samples',
     'A sequence drawn from a Markov source of any order starts with the given initial states, has the requested length, and every further sample is drawn '
     'with the transition probabilities of exactly the samples that precede it, most recent last. Inconsistent initial states or transition matrices '
     'are refused.',
     INP + ['schedules', 'configurations'], 'every outcome of every random draw, all initial states, orders 1..3, within the length bound',
     'Random output is hardly testable; a wrong context row needs order two or more.',
     ['utils/random_sources.py'], [('generate_markov_samples', 'utils/random_sources.py')])

prop('C23', 'Field models strengthen plausible fields and weaken or force implausible ones',
     'The MAVLink decoders multiply channel values of fields the model finds plausible by the (confidence-weighted) valid factor and of implausible fields '
     'by the invalid factor; bits of a value never seen in a constant field are forced to the learned bits. Bits of messages found in the received '
     'word, or only after the repair, are trusted; bits without a modelled field keep their value, an unknown structure '
     'changes nothing, and the observation is never modified.',
     INP + ['histories', 'configurations'], 'symbolic observation and history values within bounds; learned and given models; the three MAVLink decoders',
     'No unit tests of the rectification; each bit class needs its own combination of history and observation.',
     ['decoders/mavlink_decoder.py', 'decoders/combined_decoder.py', 'decoders/combined_unified_decoder.py'],
     [('MavlinkRectifyingDecoder.model_prediction', 'decoders/mavlink_decoder.py'), ('CombinedDecoder.mavlink_model_prediction', 'decoders/combined_decoder.py'),
      ('CombinedUnifiedDecoder.mavlink_model_prediction', 'decoders/combined_unified_decoder.py')])

prop('C24', 'MAVLink decoders: cluster choice, decoder input, result and what is learned',
     'Each buffer is decoded with the field models (and bit model) of its own cluster and the outcome of the channel decoder is returned. The structure of a cluster '
     'is that of its first recovered buffer; from then on models learn exactly the recovered bits, or the hard channel bits if decoding failed. '
     'Nothing is learned while the classifier is trained, a given field model is never changed, repeated attempts go on from the last soft output until one succeeds, '
     'and the channel word is not modified.',
     INP + ['histories', 'configurations'], 'symbolic payloads, checksums, decoder outcomes and channel values over short streams; one or two clusters; windows',
     'No unit tests; the state kept between buffers decides.',
     ['decoders/mavlink_decoder.py', 'decoders/combined_decoder.py', 'decoders/combined_unified_decoder.py'],
     [('MavlinkRectifyingDecoder.decode_buffer', 'decoders/mavlink_decoder.py'), ('CombinedDecoder.decode_buffer', 'decoders/combined_decoder.py'),
      ('CombinedUnifiedDecoder.decode_buffer', 'decoders/combined_unified_decoder.py')])

prop('C25', 'Debug analyses of MAVLink decoders count exactly and do not disturb decoding',
     'The reported confusion counts of implausible fields against damaged ones, plausible fields against undamaged ones, and forced or flipped bits against '
     'errors are exact: true and false positives and negatives add up, a field with several errors counts once, errors outside of the message are ignored. '
     'Without a known structure nothing is reported, and debugging changes neither what is decoded nor what is learned.',
     INP + ['fault_sequences'], 'all error positions, received bits and field classifications within bounds; the three MAVLink decoders',
     'No unit tests of the analyses.',
     ['decoders/mavlink_decoder.py', 'decoders/combined_decoder.py', 'decoders/combined_unified_decoder.py'],
     [('confusion', 'decoders/mavlink_decoder.py'), ('classifier_analysis', 'decoders/mavlink_decoder.py'), ('forcing_analysis', 'decoders/mavlink_decoder.py')])

prop('C26', 'Denoising decoder: decoder input, reported result and learning per cluster',
     'Each model bit is denoised given the history of that bit in the cluster of the buffer; its log odds, weighted by a confidence that grows with the '
     'number of buffers, are added to the channel value, and all values are limited to the clipping factor times the strongest channel value. The outcome of the '
     'channel decoder is returned with the label and the signs of what was decoded; while the classifier is trained buffers are decoded as received and '
     'nothing is learned, and the channel word is never modified.',
     INP + ['histories', 'configurations'], 'symbolic channel values over streams of up to four buffers, contexts, clusters, labels and clipping factors',
     'No unit tests; clusters and bits must not mix, which needs particular streams.',
     ['decoders/classifying_DUDE_decoder.py'], [('ClassifyingDudeDecoder.decode_buffer', 'decoders/classifying_DUDE_decoder.py')])
prop('C27', 'Streams: sequence numbers of the sender, chunk-independent reception',
     'A sender writes exactly the packed frames with consecutive sequence numbers modulo 256 and counts them. A receiver (robust mode) returns the same '
     'messages and bad-data items in the same order however the stream is cut into chunks: every byte is delivered exactly once and in order, a frame is a '
     'message exactly when the codec accepts it, and bytes and errors are counted exactly. What it asks for never reaches beyond the current frame.',
     INP + ['schedules', 'histories'], 'symbolic frames, gaps and checksums under every cut of the stream into up to three chunks and byte by byte; any sequence number',
     'No unit tests of the stream interface; chunk boundaries and corrupted lengths are needed to show errors.',
     ['mavlink_utils/HC_dialect.py'], [('MAVLink.parse_char', 'mavlink_utils/HC_dialect.py'), ('MAVLink.parse_buffer', 'mavlink_utils/HC_dialect.py'),
                                       ('MAVLink.send', 'mavlink_utils/HC_dialect.py'), ('MAVLink.bytes_needed', 'mavlink_utils/HC_dialect.py')])
prop('C28', 'Bernoulli mixture model: posteriors, EM steps, prediction and score',
     'For any binary data the log likelihoods, the posterior probabilities of the components and the score are those of the Bernoulli mixture (bits certain '
     'under a component that disagree are practically impossible), and the predicted component is a most probable one. Fitting does exactly the allowed number '
     'of EM steps: weights become mean posteriors, component means posterior-weighted means; the likelihood never drops and is that of the returned model.',
     INP + ['configurations'], 'every binary data set within bounds, several parameter sets, numbers of EM steps',
     'No unit tests; wrong weighting or normalisation only shows as worse clusters.',
     ['inference/bmm.py'], [('BMM.fit', 'inference/bmm.py'), ('BMM.get_responsibilities', 'inference/bmm.py'), ('BMM.predict', 'inference/bmm.py')])

prop('C29', 'Relabelling of clusters is one-to-one and pairs by largest overlap',
     'Relabelling gives every cluster a class of its own (no two clusters share one, none is left out) and every sample the class of its cluster, whatever the labels. '
     'Pairs are made largest overlap first: no cluster and class overlap in more samples than both of the pairs they ended up in. The labels passed in are not changed.',
     INP, 'every list of predicted labels and classes within bounds; classes given or taken in turns',
     'No unit tests; with three classes it takes two clusters that prefer the same class.',
     ['runs/clsutering_analysis/functions.py'], [('relabel', 'runs/clsutering_analysis/functions.py')])

prop('C30', 'Recorded buffers are encoded completely, in order and without gaps',
     'Encoding a recording yields, for every buffer in order, as few code words as hold its bits (one for an empty buffer): each is the encoding of exactly as many bits as the code takes, '
     'together the bits of the buffer in order, and padding only at the end of its last word. This holds for every length, also exact multiples of the code size.',
     INP + ['configurations'], 'all buffer contents, buffer lengths below, at and above multiples of the code size',
     'No unit tests; boundary lengths are where bits get lost.',
     ['runs/HC_eilat_July_2018/ecncoding_data.py'], [('encode_data', 'runs/HC_eilat_July_2018/ecncoding_data.py')])
