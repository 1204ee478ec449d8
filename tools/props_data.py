prop("P01", "Padding an image to a factor is minimal and exactly reversible",
     "Padding an image to a factor yields the smallest size in each dimension that is a multiple of the factor, reports the original size, and leaves every original pixel where it was, so cropping to the reported size returns the input exactly. Padded pixels contain what the requested padding mode defines, and an image whose size already is a multiple is returned unchanged.",
     "every image size, factor, padding mode and pixel value", "tests sample four sizes with three factors and only check shapes",
     [F + "_pad_image.py"], [("size arithmetic and F.pad call", F + "_pad_image.py::pad_image_to_factor")], over=("inputs", "configurations"))
prop("P02", "Conversion to the 255 scale is exact for byte images and nearest otherwise",
     "Any 8-bit image scaled to [0,1] comes back as exactly the same bytes from the conversion to the 255 scale, in single and double precision. Any in-range image maps to the nearest integers of 255 times its value with the requested data type, and an image with a value outside [0,1] is rejected with an error.",
     "every pixel value representable in float32/float64 and every output data type", "tests use three integer ramps; rounding defects at individual pixel values escape",
     [F + "_image_to_255_scale.py"], [("scaling, rounding, range check", F + "_image_to_255_scale.py::image_to_255_scale")])
prop("P03", "HSV and optical-flow colouring follow the colour-model definition",
     "Converting HSV (hue in degrees, saturation and value in the unit interval) to RGB gives the textbook colour for every hue, saturation and value, including the hue borders, with all channels within [0,1]. The optical-flow colouring gives an in-range image that is black where there is no flow, red for flow along the positive second component and never darker for a longer flow vector; every flow direction is accepted and inputs of the wrong layout are rejected.",
     "every hue, saturation, value and flow vector", "tests compare one random image with an external library",
     [F + "_hsv_to_rgb.py", F + "_optical_flow_to_color.py"], [("sextant formula", F + "_hsv_to_rgb.py::hsv_to_rgb"), ("polar colouring", F + "_optical_flow_to_color.py::optical_flow_to_rgb")])
prop("P04", "Dense image warping samples the image at grid position plus flow",
     "Every output pixel of the warp is the bilinear (or nearest) interpolation of the image at that pixel's regular grid position in [-1,1] plus the flow vector there (first component along the width, second along the height), under the chosen out-of-image padding and corner convention, and the output has the flow's spatial size. Zero flow with aligned corners returns the image, each image of a batch uses its own flow and channels do not mix. Flow that is not two-dimensional or has another data type than the image is rejected.",
     "every image, flow field, size, padding and interpolation mode", "one test with one size compares against one reference",
     [F + "_dense_image_warp.py"], [("grid construction and sampling", F + "_dense_image_warp.py::dense_image_warp")])
prop("P05", "Lower bound clamps forward and follows the chosen gradient rule backward",
     "The lower-bound operation returns the elementwise maximum of input and bound (tensor or number). Its gradient is the upstream gradient for the identity rule, zero below the bound for the disconnected rule, and for the towards rule zero only where the input is below the bound and the update would push it further down; an unknown rule is rejected.",
     "every input, bound, upstream gradient and gradient rule", "one test with one random tensor and the default rule",
     [F + "_lower_bound.py"], [("forward maximum and gradient masks", F + "_lower_bound.py")], over=("inputs", "configurations"))
prop("P06", "Tail functions agree with the distribution's own CDF",
     "The CDF helper, log-CDF, survival, log-survival and log-normal-CDF functions equal the mathematical functions of the given distribution for every argument, including far into the normal lower tail; log(exp(x)-1) is exact for small and large x. The lower and upper tail quantiles leave half of the requested mass outside on each side, the iterative tail search stops when started at the solution, and the quantization offset is within half a step and aligns the mean with an integer.",
     "every argument, location, scale and tail mass", "tests evaluate one argument per function, some against constants copied from the implementation",
     [F + "_ndtr.py", F + "_log_ndtr.py", F + "_log_cdf.py", F + "_survival_function.py", F + "_log_survival_function.py", F + "_log_expm1.py", F + "_lower_tail.py", F + "_upper_tail.py", F + "_estimate_tails.py", F + "_quantization_offset.py"],
     [("case distinctions between series, erf and erfc", F + "_log_ndtr.py"), ("standardisation", F + "_log_cdf.py")])
prop("P07", "Uniform-noise distributions have the box-convolved mass and independent noise",
     "The probability of a value under a distribution with additive uniform noise is the base CDF at value+1/2 minus the base CDF at value-1/2, and its log-probability is the logarithm of that. A sample has the requested sample shape followed by the batch shape, each component being a base sample plus its own independent noise from [-1/2,1/2); batch and event shapes and expansion follow the base distribution, and the summary statistics and tail functions are the base's.",
     "every value, base parameters, sample shape and random draw", "tests check a few values of one normal base and compare delegated attributes to mocks",
     [N + "distributions/_uniform_noise.py", N + "distributions/_noisy_normal.py"], [("survival/CDF difference, noise draw", N + "distributions/_uniform_noise.py::UniformNoise")])
prop("P08", "Soft rounding is monotone, fixes integers and is inverted by its inverse",
     "Soft rounding maps each unit cell monotonically onto itself, fixes integers and half-integers, commutes with integer shifts and is the identity below the sharpness threshold. Its inverse undoes it in both directions, and the conditional mean equals the inverse at z-1/2 plus 1/2.",
     "every input and sharpness", "tests evaluate one point per function",
     [F + "_soft_round.py", F + "_soft_round_inverse.py", F + "_soft_round_conditional_mean.py"], [("tanh/atanh pair around the cell centre", F + "_soft_round.py")])
prop("P09", "Information content is the negative log-likelihood under each reduction",
     "Information content is minus the logarithm, in the given base, of the probabilities: elementwise without reduction, summed per batch element, or summed over everything, for any shape and memory layout. It is never negative, rarer symbols never cost less, and an unknown reduction is rejected.",
     "every probability tensor, shape, layout, base and reduction", "tests use base 2 sums of one random tensor per shape",
     [F + "_information_content.py"], [("log sum and base change", F + "_information_content.py::information_content")])
prop("P10", "PSNR follows its definition and the PyTorch and NumPy versions agree",
     "PSNR equals 10 log10(range^2 / mean squared error) for every pair of images and data range, is symmetric in its arguments and decreases when the error grows. The PyTorch and NumPy versions agree, including for unsigned 8-bit NumPy images.",
     "every pair of images, dtype and data range", "tests compare with one reference formula on float ramps",
     [N + "metrics/_calc_psnr.py"], [("mse and decibel formula", N + "metrics/_calc_psnr.py")])
prop("P11", "MS-SSIM follows its definition and is 1 exactly for identical images",
     "Multi-scale structural similarity equals the published formula (Gaussian window, luminance at the coarsest scale, contrast-structure at every scale, 2x average pooling between scales) for every pair of images; it is symmetric, equals 1 for identical images and never exceeds 1, and per-image results do not mix images of a batch. Images too small for the window and number of scales are rejected and all others accepted; the metric object reports the mean over all images it has seen, and unsupported option values are rejected.",
     "every image pair, size and batching", "tests compare a few random images to one external library",
     [F + "_multiscale_structural_similarity.py", N + "metrics/_msssim.py"], [("window statistics, scale recursion", F + "_multiscale_structural_similarity.py"), ("accumulation", N + "metrics/_msssim.py")], over=("inputs", "configurations", "histories"))
L = N + "layers/"
prop("P12", "Channel and divisive normalisation compute their formulas at every pixel",
     "Channel normalisation gives every pixel position zero-mean, unit-variance channels (unbiased variance plus epsilon) followed by the learned scale and shift, independently of other positions and images, and rejects fewer than two channels. The simplified GDN divides, and its inverse multiplies, each channel by beta plus the gamma-weighted sum of absolute channel values; gamma is kept non-negative and beta at or above its minimum whatever values training left in them, so the division is always defined, and in-range parameters are not altered.",
     "every input, parameter value, size and epsilon", "tests only check shapes and one numeric example",
     [L + "_channel_norm.py", L + "_simplified_gdn.py"], [("channel statistics", L + "_channel_norm.py::ChannelNorm2D.forward"), ("parameter clamping and 1x1 convolution", L + "_simplified_gdn.py")])
prop("P13", "Vector quantisation picks a nearest codeword and keeps honest statistics",
     "Every latent vector is replaced by a codeword at minimal Euclidean distance (of the normalised codebook where normalisation is on), with its index and distances reported; gradients pass straight through the quantiser, the commitment loss only moves the encoder and the embedding loss only the codebook, both being the mean squared quantisation error. In probabilistic mode a codeword is drawn with probability proportional to its inverse squared distance. The hit counters always equal how often each codeword was chosen since the last reset, usage metrics follow from them, and the reported cost is the index bits in whole bytes.",
     "every latent, codebook, random draw and call history", "tests check shapes on random inputs and never reset or read the counters",
     [L + "_q_bottleneck.py", L + "_vq_bottleneck.py"], [("distance argmin, straight-through", L + "_q_bottleneck.py::QBottleneck.quantize_vectors"), ("hit counting", L + "_vq_bottleneck.py::VQBottleneck.forward")], over=("inputs", "histories"))
prop("P14", "Entropy layer tables describe their own distributions",
     "The continuous entropy layer accepts exactly the documented combinations of optional arguments and refuses access to tables or a prior it does not hold. Quantisation returns the nearest 32-bit integers of value minus offset. For a compressible layer there is one table per distribution: its offset is the integer grid point at the lower tail, its size covers lower to upper tail plus overflow, and its entries are that distribution's own probabilities on the offset grid with the remaining mass in the last symbol, for distributions lying above zero.",
     "every argument combination, value, offset and location of the priors", "tests construct one layer and compare table shapes",
     [L + "_continuous_entropy.py"], [("argument validation", L + "_continuous_entropy.py::ContinuousEntropy.__init__"), ("probability tables", L + "_continuous_entropy.py::ContinuousEntropy._update")], over=("inputs", "configurations"))
prop("P15", "Latent wrappers and cross-covariance attention apply their operations",
     "Normalising a latent scales the channel vector of every position to unit length; projecting applies a per-position linear map, then the child operation, then the inverse map; wrappers nest, pass every other output field through and reject a missing latent. Cross-covariance attention updates each channel with the softmax-weighted channels of its own head and image, from unit-length queries and keys scaled by the head's temperature.",
     "every latent, token value, weight and temperature", "tests only check shapes",
     [L + "_normalize_latent.py", L + "_project_latent.py", L + "_xca.py"], [("recursion through child", L + "_project_latent.py::ProjectLatent.forward"), ("attention over channels", L + "_xca.py::XCA.forward")])
LF = N + "loss_fn/"
prop("P16", "Distortion and adversarial losses equal their formulas",
     "The MSE loss is the scaled mean squared error and the MSE-LPIPS loss the weighted sum of MSE and the mean perceptual distance with a frozen, evaluation-mode network. The perceptual distance sums over layers the averaged, weighted squared differences of unit-normalised features, is 0 for identical images and defined even where features vanish. The binary cross-entropy losses score real logits against the target and fake logits against zero with equal weight; the OASIS losses score every pixel against its label plus one (fake pixels against class zero). Targets of the wrong rank, size or type are rejected.",
     "every image, logit, target, label map and weight", "tests compare a handful of constant logits",
     [LF + "_mse_loss.py", LF + "_mse_lpips_loss.py", LF + "_normfix_lpips.py", LF + "_binary_crossentropy_loss.py", LF + "_oasis_loss.py"], [("loss formulas", LF + "_oasis_loss.py")])
prop("P17", "Learning-rate schedules ramp, hold and decay as documented",
     "The ramp-cosine and ramp-constant-cosine schedules rise linearly from zero over the ramp, hold the base rate (constant variant) and then follow a quarter cosine, always staying between the minimum and one and never rising after the ramp; every parameter group gets its own base rate times the factor of the current step. The video-transformer schedules are the linear ramp, the constant warm-up, and the half cosine from base rate to minimum rate with the ramp as upper limit.",
     "every step, ramp length, decay length, total and base rate", "no test covers the schedules",
     [N + "optim/_ramp_cosine.py", N + "optim/_ramp_const_cosine.py", N + "optim/_identity.py", "projects/torch_vct/utils/schedulers.py"], [("step functions", N + "optim/_ramp_const_cosine.py")], over=("inputs", "histories"))
ME = N + "metrics/"
prop("P18", "Patch-based FID feeds every patch of both grids exactly once",
     "The patch-based update feeds each metric it is given with every patch of the non-overlapping grid and, when both sides are at least one and a half patches long, every patch of the grid shifted by half a patch: each exactly once, as 8-bit crops of the image at the right place, real and compressed images kept apart and in the same order. It returns the number of patches per image set and rejects a call without any metric.",
     "every image, batch, image size and patch size", "the test checks one image size with mocked networks and no contents",
     [ME + "_update_patch_fid.py"], [("unfold grids and metric updates", ME + "_update_patch_fid.py::update_patch_fid")])
prop("P19", "Distribution metrics hold exactly the features since the last reset",
     "FID (Inception and SwAV) and KID compute their distance from the features of all and only the real and compressed images given since the last reset, in order, in double precision, with the requested feature layer, normalisation, subset and kernel parameters. DISTS reports the sum or mean of all scores since the last reset and accepts exactly four-dimensional RGB images within [0,1]. Pickle size is the length of the object's pickle.",
     "every update history, image, batch size and parameter", "tests run one history and several never compute a value",
     [ME + "_fid.py", ME + "_fid_swav.py", ME + "_kid.py", ME + "_dists.py", ME + "_pickle_size.py"], [("state accumulation", ME + "_fid.py::FrechetInceptionDistance.update"), ("parameters of the distance", ME + "_kid.py::KernelInceptionDistance.compute")], over=("inputs", "histories"))
MO = N + "models/"
prop("P20", "HiFiC decoding reproduces exactly what its encoder quantised",
     "Compressing records the image size and the minimal padding to a multiple of 64, one string pair per image; decompressing asks for the latent sizes and scale indexes the encoder used and returns the decoded mean-rounded latent, cropped to the image size and clamped to [0,1], the same as an evaluation-mode forward. In training the decoder gets the latent rounded around its mean with a straight-through gradient, and the quantised likelihoods are those of the rounded latent and hyper latent. Forward runs only in the forward device setting, and frozen encoder and bottleneck stay in evaluation mode without trainable parameters through any sequence of train and eval calls.",
     "every image, image size, noise draw and call history", "tests run random weights at two sizes and compare shapes only",
     [MO + "_hific_autoencoder.py", MO + "_hific_encoder_decoder.py"], [("coding round trip", MO + "_hific_autoencoder.py::HiFiCAutoencoder.decompress"), ("quantised likelihoods", MO + "_hific_autoencoder.py::HiFiCAutoencoder.forward")], over=("inputs", "histories"))
prop("P21", "Hyperprior models split trainable parameters exactly into two groups",
     "Parameter collection returns every trainable parameter exactly once: those named quantiles in the quantile group, all others in the model group, and no frozen one. Straight-through quantisation rounds the latent around the optional mean, moves each value by at most one half, and passes the gradient to the latent unchanged. The CPU checks are true exactly when all parameters (all coding-layer parameters) are on the CPU, and coding layers must be declared before they are checked or moved.",
     "every subset of frozen parameters, latent, mean and device placement", "tests check one model with everything trainable",
     [MO + "_hyperprior_autoencoder.py"], [("name-based split", MO + "_hyperprior_autoencoder.py::_HyperpriorAutoencoderBase.collect_parameters"), ("straight-through estimator", MO + "_hyperprior_autoencoder.py::_HyperpriorAutoencoderBase._ste_quantize")], over=("inputs", "configurations"))
prop("P22", "The VQ-VAE pads, codes, decodes and crops without losing its input size",
     "In evaluation mode the image is reflect-padded at the right and bottom to a multiple of the downsampling factor, encoded, passed through the bottleneck if there is one, decoded and cropped to the input size; in training it is not padded. The bottleneck's other output fields are kept. Residual blocks add the (projected) input to two normalised swish-activated convolutions, attention blocks add the attention of the pixels as tokens at their own place, and resampling halves (convolution padded only at the right and bottom, or average) and doubles exactly. Frozen parts run in evaluation mode without trainable parameters whatever mode calls come before. The projector is always frozen and returns the bottleneck's indices of the encoded image.",
     "every image, image size and history of mode changes", "tests check output shapes at one size",
     [MO + "_vqvae_xcit_autoencoder.py", MO + "_vqvae_projector.py"], [("pad and crop", MO + "_vqvae_xcit_autoencoder.py::VqVaeXCiTAutoencoder.forward"), ("eval-only train()", MO + "_vqvae_projector.py::VqVaeProjector.train")], over=("inputs", "histories"))
prop("P23", "The U-Net discriminator's levels and output resolution are as specified",
     "Each U-Net level gives its child the halved sum of block and shortcut of the same unmodified input, and returns the doubled sum of block and shortcut of the child's result, or the child's result itself when clipped. The output has the requested channels at the image resolution divided by the downsampling factor, for every power-of-two factor below two to the number of levels; other factors that are not powers of two and unknown normalisation types are rejected. The conditional variant appends each image's own processed context, resized to the image, to the image channels.",
     "every input, image size, factor and normalisation type", "tests check shapes for the default channels and factor 16 only",
     [MO + "_unet_discriminator.py"], [("level composition", MO + "_unet_discriminator.py::_UnetLevel.forward"), ("clipping", MO + "_unet_discriminator.py::UnetDiscriminator.__init__")], over=("inputs", "configurations"))
prop("P24", "Deep video compression decodes the frame its encoder predicted",
     "Decompression asks the entropy coders for the latent sizes that were encoded, for odd and even frame sizes, and returns the motion-compensated prediction from the decoded flow plus the decoded residual, clamped to [0,1], without modifying its inputs; the training forward composes the same steps without clamping and reports flow, residual and both probabilities. The pyramid estimator refines the flow from coarse to fine, returning the warped base and target of every level in that order, and rejects frames of different size; the compensation network sees previous frame, warped frame and flow in order, and the decoder undoes the encoder's size changes from the recorded sizes, which it does not consume.",
     "every frame pair and frame size", "tests use sizes that are multiples of 16 and compare shapes",
     [MO + "deep_video_compression.py"], [("latent sizes and reconstruction", MO + "deep_video_compression.py::DVC.decompress"), ("coarse-to-fine refinement", MO + "deep_video_compression.py::DVCPyramidFlowEstimator.calculate_flow_with_image_pairs")])
V = "projects/torch_vct/"
prop("P25", "Video-transformer patching cuts the right windows and is reversible",
     "Patching a latent with stride s and patch size p returns ceil(H/s) times ceil(W/s) patches per image, in raster order, each the p-by-p window (tokens in raster order, channels last) of the padded latent centred on its s-by-s cell, with the requested padding mode; the latent is not modified. With p equal to s, unpatching puts every token back at its own position and cropping restores the latent exactly, for either channel order. Patch sizes below the stride or with an odd overlap are rejected.",
     "every latent, latent size, stride and overlap", "the test compares one shape and one round trip of random values",
     [V + "neural/patcher.py"], [("padding and window extraction", V + "neural/patcher.py::Patcher.forward"), ("inverse layout", V + "neural/patcher.py::Patcher.unpatch")])
prop("P26", "Video-transformer attention is masked, and decoder tokens see no later ones",
     "Windowed attention returns per head the softmax of the scaled query-key inner products, with masked positions at weight zero (masks repeat over longer key sequences), and the projected weighted values. A decoder output token never depends on later tokens: every decoder block masks exactly the later tokens of its self-attention and nothing in the cross-attention, encoders mask nothing. Blocks are two pre-normalised residual attention and MLP stages applied in order to the same encoder output; the start symbol shifts the sequence by one; positions are added to every window; stochastic depth is the identity in evaluation and drops or rescales whole samples in training.",
     "every token sequence, encoder output, mask and random draw", "tests check shapes and one random causality example",
     [V + "neural/layers_utils.py", V + "neural/entropy_model_layers.py"], [("attention and masking", V + "neural/layers_utils.py::WindowMultiHeadAttention.forward"), ("block composition", V + "neural/entropy_model_layers.py::TransformerBlock.forward")])
prop("P27", "The video-transformer bottleneck codes latents losslessly with shared indexes",
     "Compressing a latent with predicted means and scales and decompressing the strings with the same means and scales returns exactly the quantised latent the encoder reported: the latent rounded around the rounded mean, moved by at most one half; encoder and decoder derive the same table indexes, always inside the tables; the table's mean is the fractional part of the mean on the mean grid and a wider scale never selects a narrower table. The training and evaluation forward report that quantised (or noise-perturbed) latent and, as likelihood, the Gaussian mass of the unit interval around the value, bounded from below; rounding passes gradients straight through. The scale grid maps indexes and scales to each other monotonically and inversely, and the coding tables hold the same mass as the reported likelihood.",
     "every latent, mean, scale and table index", "tests compare one random latent and shapes",
     [V + "neural/bottlenecks.py"], [("round trip", V + "neural/bottlenecks.py::GsnConditionalLocScaleShift.compress"), ("indexes", V + "neural/bottlenecks.py::GsnConditionalLocScaleShift._get_indexes"), ("scale grid", V + "neural/bottlenecks.py::Scaler")])
prop("P28", "Video-transformer entropy coding decodes token by token what was encoded",
     "Compressing a latent codes its tokens one by one, each with the prediction from the context and the already coded tokens only, and decoding from the strings and the context alone returns the encoder's quantised latent, with the same decoder features and bits equal to eight times the number of bytes; skipping the decoder returns the same latent and bits; the causality check fails a transformer that looks ahead. Histories shorter than the context length are filled with the oldest latent, longer ones and unsupported lengths are rejected. The training forward feeds context windows and shifted target tokens to the transformer and reports quantised latent, likelihoods and features at the positions of their tokens; processing a previous latent patches it with the encoder window, embeds it and runs the separate encoder.",
     "every latent, context, latent size and causal predictor of the modelled family", "tests run one random latent with an untrained transformer and compare shapes",
     [V + "neural/entropy_model.py"], [("sequential coding", V + "neural/entropy_model.py::VCTEntropyModel.compress"), ("context", V + "neural/entropy_model.py::VCTEntropyModel._get_encoded_seqs"), ("forward", V + "neural/entropy_model.py::VCTEntropyModel.forward")])
prop("P29", "The video-transformer pipeline keeps frames, context and rate consistent",
     "Every frame of a clip is coded with the previously quantised latents of the same clip, at most the context length of them in order, and its own reconstruction, size and likelihoods come back at its own place in time, cropped to the input size after padding to a multiple of the downsampling factor; videos of a batch do not influence each other; caching does not change any result. Compressing a clip and decompressing the result gives the reconstruction of the evaluation forward pass; the rate is the sum of minus log2 of the likelihoods, in total or per frame, and strings of later frames report their own bits. Analysis and synthesis transforms treat every frame alone, whether or not they work in chunks, and restore sizes; they report the channel count they were built with. The dequantiser adds features to the latent only; video containers index, convert and slice frames in order.",
     "every clip, clip length, frame size, context length and chunking", "tests use one clip size and shapes",
     [V + "model_pipeline.py", V + "neural/transforms.py", V + "datamodules/video_data_api.py"], [("frame loop", V + "model_pipeline.py::VCTPipeline.forward"), ("compression", V + "model_pipeline.py::VCTPipeline.compress"), ("per-frame transforms", V + "neural/transforms.py")])
prop("P30", "A memoised call returns what the function returns for its own arguments",
     "Inside a cache, every memoised call returns what the function returns for the very tensors it was given, in every history of calls, also when earlier tensors have been freed and their identity is reused; a function runs once per distinct arguments, and functions and caches never see each other's results. Without a cache every call runs the function.",
     "every history of calls, every reuse of object identities", "the tests hold all tensors alive and make two calls",
     [V + "utils/memoize.py"], [("cache key and lifetime", V + "utils/memoize.py")])
J = "projects/jax_entropy_coders/"
prop("P31", "The JAX arithmetic coder is lossless for every CDF, or reports an overrun",
     "Encoding a batch of messages with integer CDFs on a 2^16 scale (every symbol of non-zero probability) and decoding the byte strings with the matching inverse CDF returns exactly the messages, for fixed and state-dependent CDFs, for messages of equal or different lengths decoded together; the code is never longer than the information content by more than three bits before padding to bytes; a message that does not fit its buffer is rejected with an error and never decodes to something else.",
     "every message and every CDF within the bounds", "the tests need jax and sample random tables",
     [J + "jax_arithmetic_coder.py"], [("interval narrowing and renormalisation", J + "jax_arithmetic_coder.py::_enqueue"), ("symbol lookup", J + "jax_arithmetic_coder.py::_dequeue"), ("termination and buffer", J + "jax_arithmetic_coder.py::encode")])

prop("P32", "The rANS stack coder is reversible, for messages and for bits-back coding",
     "With room in the tail, popping undoes pushing and pushing undoes popping for every stack (every normalised head, every tail), every CDF interval and any number of interleaved lanes: head, tail pointer and tail content are restored, the head stays normalised, what peek shows lies in the pushed interval, and each lane moves at most two bytes. Turning a message into a byte array and back, and embedding it in a larger tail, keeps head, tail and pointer, and a tail too small for an existing buffer is rejected. encode/decode with fixed or state-dependent CDFs return the messages of every batch element, also when appended to an earlier buffer (last in, first out), and hand the earlier buffer back unchanged; bits-back coding returns the messages and the bits it took.",
     "every stack state, every interval, every message within the bounds", "the tests need jax and sample random messages from fresh stacks",
     [J + "craystack/_backend.py", J + "craystack/codecs.py", J + "craystack/coder.py"],
     [("renormalisation and stack push/pop", J + "craystack/_backend.py::push_symbols"), ("symbol lookup and bits-back", J + "craystack/codecs.py"), ("batched encode and decode", J + "craystack/coder.py")])
D = "neuralcompression/data/"
prop("P33", "Datasets deliver the documented item for every index, listing order and history",
     "Item i of an image dataset is the i-th image of the split by name, whatever order the file system or the list file names them in; unknown splits are rejected and excluded training images never appear. Vimeo-90k items are the documented septuplet and frame for every index and group size, in both modes, with transforms applied once (none by default in image mode). Kodak item i is kodim(i+1), a changed, exchanged or missing file is reported by the integrity check, and a download into an existing directory happens only with force_download. A pass over CLIC2020Video delivers, for every sampler and clip-sampler behaviour, each drawn video once with all its clips, frames in order, clip times continuing within a video and starting at zero in the next, on every pass; frame selection is evenly spread from first to last frame.",
     "every index, every directory order, every clip history within the bounds", "the tests read a handful of items in creation order with a one-clip sampler",
     [D + "_clic_2020_image.py", D + "_clic_2020_video.py", D + "_div2k_dataset.py", D + "_kodak.py", D + "_openimages_v6.py", D + "_vimeo_90k_septuplet.py"],
     [("index to file mapping", D + "_vimeo_90k_septuplet.py::Vimeo90kSeptuplet"), ("clip iteration", D + "_clic_2020_video.py::CLIC2020Video"), ("integrity and download", D + "_kodak.py::Kodak")])
B = "projects/bits_back_diffusion/"
prop("P34", "The bits-back codec is lossless, restartable and accounts for its bytes",
     "For every hierarchical model and stack, encoding batches and decoding them returns the batches last in first out and restores the stack to what it was, popping and pushing every step of the latent once per batch; counts, rates and extra bits are those of the bytes moved. A codec restored from its saved state reports the same statistics and decodes everything; batches of the wrong shape or outside the alphabet are rejected without changing anything. Quantisation maps data to the nearest of the evenly spread levels and back; the probability of a level is that of its interval, bounded half way to its neighbours and open at the ends, for every data range. The diffusion model is asked about existing steps only, with samples and clipping option passed on. An encoding run that is killed at any point and restarted decodes to every batch exactly once, and resuming picks the checkpoint with the most steps.",
     "every model output, data value, stack answer, crash point and restart within the bounds", "craystack is not installed, no test covers this project",
     [B + "bits_back_diffusion/codec.py", B + "encode.py", B + "bits_back_diffusion/script_util.py"],
     [("push and pop", B + "bits_back_diffusion/codec.py"), ("checkpointed encoding", B + "encode.py::main"), ("interval probabilities", B + "bits_back_diffusion/codec.py::diag_gaussian_unif_bins")], over=("inputs", "crash points", "histories"))
prop("P35", "Respaced diffusion uses exactly the requested, evenly spread timesteps",
     "Respacing by section counts takes from each of the nearly equal sections exactly the requested number of different steps, evenly spread from its first to its last, and fails exactly when a section is shorter than its count; vlbN gives N different steps including a dense start and the last one; ddimN the smallest stride with N steps, or an error when there is none. The diffusion is built with all steps unless respaced, on the noise schedule of the full process, with loss, mean and variance parametrisation following the options. Dividing work by the number of processes is exact or an error.",
     "every number of steps, every section list of the bounds, every option combination", "no test covers this project",
     [B + "bits_back_diffusion/script_util.py"], [("stride and sections", B + "bits_back_diffusion/script_util.py::space_timesteps"), ("options", B + "bits_back_diffusion/script_util.py::create_gaussian_diffusion")], over=("inputs", "configurations"))
I = "projects/illm/"
prop("P36", "Rate-targeted and adversarial training charge and train each part correctly",
     "The rate loss charges each image its own bits per pixel times the larger multiplier exactly when its quantised rate exceeds the target, both following their step schedules, and reports the mean rates. One training step trains the model on weighted distortion plus rate (plus weighted adversarial loss), the discriminator, conditional or not, on real against generated images without gradient to the model, and the quantiles on the bottleneck's own loss; each is cleared, trained, clipped as configured and stepped once, the other frozen meanwhile, and optimisers and schedules belong to their own parameters. Evaluation logs the same quantities and trains nothing; testing reports the size of the compressed representation per pixel and the distortion of the decompressed images. Quality metrics compare the clamped prediction with the input at their own scale, under their own name, each metric once, starting afresh every epoch.",
     "every image, likelihood, weight, target, step and configuration within the bounds", "no test covers the training modules",
     [I + "target_compression_module.py", I + "gan_compression_module.py", I + "image_module.py"],
     [("rate charge", I + "target_compression_module.py::TargetRateCompressionModule.rate_loss"), ("adversarial step", I + "gan_compression_module.py::GANCompressionModule.training_step"), ("metrics", I + "image_module.py::ImageModule.log_quality_metrics")], over=("inputs", "configurations"))
DV_ = "projects/deep_video_compression/"
prop("P37", "Staged video-codec training predicts each frame from the decoded one before",
     "In every training stage each frame of a group is predicted from the decoded previous frame (the decoded I-frame first, no gradient through it), trained once on weighted distortion plus the bits per pixel the stage codes, with gradients cleared before and clipped and applied after; the quantiles are trained on the bottlenecks' own loss. The logged loss, distortion and rates of a group are sums divided by the number of frames, counting the I-frame's bits, in training and validation alike; validation trains nothing, and the given clip is not modified. A stage trains exactly its own unfrozen weights and quantiles, puts its trained parts back into the model and rebuilds its coding tables; unknown stages and distortions are rejected.",
     "every clip, weight, likelihood and group length within the bounds", "no test covers the training module",
     [DV_ + "_utils.py", DV_ + "dvc_module.py"], [("frame loop", DV_ + "dvc_module.py::DvcModule.training_step"), ("stage losses", DV_ + "_utils.py")], over=("inputs", "histories", "configurations"))
prop("P38", "Video-transformer training and testing report true rate and distortion",
     "Training and validation weigh each frame's scaled squared error plus its own bits per pixel, ten times for every frame but the first, and log the unweighted means; PSNR is computed per frame on the values and on the images converted to bytes after clamping. Testing takes one clip in evaluation mode, reports the coded size per pixel with and without the first frame and the PSNR of the decoded clip as bytes, and, when asked, the same for the forward pass. The optimiser gets every trainable parameter except quantiles, and the schedule drives it per step at the configured frequency.",
     "every clip, reconstruction, likelihood and coded size within the bounds", "no test covers the training module",
     [V + "model_lightning.py"], [("per-frame loss", V + "model_lightning.py::VCTModule.training_step"), ("test figures", V + "model_lightning.py::VCTModule.test_step")])
prop("P39", "Data modules deliver every item of the right split once, as clips of frames",
     "Training loaders deliver every training item once per pass in batches of the training size, validation loaders the items of the validation (or test) split in order in batches of the validation size, and only training shuffles; this holds without worker processes. Clip collation puts every frame of every video at its own place (videos, frames, channels, height, width), zero-padded when asked; UVG clips hold consecutive frames of one video, their length divides 300, mixed clips are refused and frames are normalised when asked. Kinetics transforms choose frames evenly, scale to [0,1], normalise when asked and crop centrally in validation only. Septuplet modules accept one to seven frames; image modules need a size or both transforms.",
     "every data set size, batch size, shuffle and clip within the bounds", "no test covers the data modules",
     [V + "datamodules/kinetics.py", V + "datamodules/uvg.py", V + "datamodules/vimeo.py", I + "open_images_datamodule.py", DV_ + "data_module.py"],
     [("collation", V + "datamodules/kinetics.py::KineticsDataModule._custom_collate_train"), ("splits and loaders", I + "open_images_datamodule.py::OpenImagesDataModule")], over=("inputs", "configurations"))
prop("P40", "Training runs resume, refuse or restart as asked; restoring is exact",
     "Training in a directory that holds checkpoints is refused unless resuming or overwriting is asked for; otherwise it continues from last.ckpt exactly when that exists and is not to be ignored (overwriting ignores it), creates the directory and leaves existing files alone. This holds for every combination of options and files in image, video-transformer and every stage of video-codec training; codec stages run in order of name, each on the model the last one returned, with its own checkpoint directory and its options overriding the general ones. Testing an image model loads the last checkpoint, in evaluation mode, and runs every data set under its own name; training lasts the configured number of steps for every optimiser. Restoring takes exactly the weights saved under the model prefix, strictly, and rebuilds the coding tables of video models; a latent projector is frozen. In distributed diffusion training the first process restores model and averaged weights and shares them. Zoo and hub models load the weights published for their rate, exactly when asked (the hub asks by default).",
     "every combination of options, existing files, ranks and saved weights", "no test starts a training run, resumes one or restores a checkpoint",
     [I + "train.py", V + "model_train.py", V + "utils/checkpoint_loaders.py", DV_ + "train.py", B + "bits_back_diffusion/script_util.py", "neuralcompression/zoo/_msillm.py", "neuralcompression/zoo/_noganms.py", "neuralcompression/zoo/_msillm_vqvae.py", "hubconf.py"],
     [("checkpoint decision", I + "train.py::fetch_checkpoint"), ("stages", DV_ + "train.py::run_training_stage"), ("restoring", V + "utils/checkpoint_loaders.py::load_model_checkpoint_from_config")], over=("inputs", "histories", "configurations"))
prop("P41", "Evaluation scripts report true averages; image logs show what was coded",
     "The variational bound is reported as the mean over all samples of all processes so far, and mean, spread, minimum and maximum of every term over all samples are saved by the first process, first step first; plots show mean, one standard deviation to each side and the range. The folder evaluation codes every image once with a model in evaluation mode and built tables, and prints the mean bits per pixel, the mean PSNR and the metrics' values, PSNR and MS-SSIM on images rounded to bytes, LPIPS and FID on the clamped decoded images against the originals. Image logs show inputs beside their own reconstructions, clipped to [0,1]; the video codec's mosaics show clips from top to bottom and time from left to right, each frame predicted from the decoded one before.",
     "every value of every term, decoded pixel, coded size and number of processes within the bounds", "no test runs the evaluation scripts",
     [B + "compute_vlb.py", I + "eval_folder_example.py", I + "train.py", DV_ + "train.py", V + "model_train.py", B + "bits_back_diffusion/script_util.py"],
     [("averages over processes", B + "compute_vlb.py::main"), ("folder figures", I + "eval_folder_example.py::main"), ("mosaic", DV_ + "train.py::WandbImageCallback")])
