"""hand-written parts of DESIGN.md; tools/design.py assembles the document."""
HOW = {
 "P01": "Sizes are symbolic integers pushed through `pad_image_to_factor`; claims: divisible, minimal, original in the top-left corner. Values: element identities through PyTorch's pad, cropping restores the image.",
 "P02": "Bit-precise IEEE float32/64 query: for every byte b, round(255*(b/255)) = b; output is the nearest integer; validation branches forked.",
 "P03": "Every hue/saturation/value triple as reals, compared with the textbook conversion; flow colouring: hue from the direction, value from the magnitude, plus the bit-precise float32 bound of the hue (<= 360).",
 "P04": "Symbolic image and flow through the real function and an encoded grid sampler, against an independent bilinear/nearest reference.",
 "P05": "`lower_bound` is executed with its real autograd function; value = max and the three documented gradient laws, in reals and bit-precise.",
 "P06": "Agreement of survival, log-cdf and log-survival with the distribution's own CDF, via axiomatised erf/exp/log with CEGAR.",
 "P07": "Density = difference of base CDFs over a unit window; samples = base sample plus one independent noise per component (draws symbolic); shape algebra.",
 "P08": "Monotone, identity at integers and half integers, inverse, bounded between identity and round, for each sharpness; gradient positive.",
 "P09": "Sum of -log_b p per reduction, layout-independent, additive, non-negative.",
 "P10": "Formula, symmetry, monotonicity and unit handling; uint8 arrays in bit-vector (wrapping) semantics.",
 "P11": "Window statistics against the definition, symmetric, 1 for identical images, bounds, validation of sizes with symbolic H, W.",
 "P12": "Per-pixel normalisation formulas incl. reparametrisation and gradients at the bounds; GDN inverse relation; sizes.",
 "P13": "Nearest codeword for every latent and codebook, straight-through gradient, commitment/codebook losses, sampling law of the probabilistic mode, hit counters over histories, coding cost with symbolic sizes.",
 "P14": "All option combinations forked; quantise = round around offset; table columns = probability of the symbol intervals for symbolic prior locations.",
 "P15": "Wrapper laws (unit norm, projection/back projection, child applied in between) and cross-covariance attention against a reference.",
 "P16": "Each loss against its formula for all logits, labels and images; validation errors forked; gradients where the module detaches.",
 "P17": "The schedule formulas with real symbolic step/lengths; real scheduler objects over every small integer configuration and history of steps.",
 "P18": "Recording metrics; the multiset of patches equals the grid of the (unpadded) image plus the half-shifted grid; counts with symbolic sizes.",
 "P19": "Histories of update/reset with stand-in feature networks; states are sums over all images so far; parameter plumbing.",
 "P20": "Lossless stand-in coders, symbolic image; decode(encode(x)) = evaluation reconstruction of x, latents, likelihood arguments, sizes with symbolic H, W, freeze/device histories.",
 "P21": "All freeze patterns forked, groups are a partition; quantiser value and gradient; device query with all placements.",
 "P22": "Composition with stand-in sub-networks and real blocks; sizes with symbolic H, W; freezing histories.",
 "P23": "Real level modules on symbolic inputs; composition order; output sizes symbolic; conditioning layout.",
 "P24": "As P20 for motion/residual coding; pyramid and compensation networks; sizes symbolic.",
 "P25": "Latent elements are symbolic; patches compared with windows of the padded latent; unpatch inverse; counts with symbolic sizes.",
 "P26": "Two runs that differ only in later tokens give equal earlier outputs (non-interference query); attention formula; block wiring; stochastic depth draws symbolic.",
 "P27": "Symbolic latent/mean/scale through the real bottleneck with a lossless coder; table construction vs likelihood; scale grid.",
 "P28": "The real sequential encoder and decoder run on symbolic latents with a causal predictor whose output is a symbolic function of the prefix; decoding uses strings only.",
 "P29": "Clip values symbolic; reference recursion over frames; cache on/off equivalence; padding sizes symbolic; per-frame non-interference of transforms.",
 "P31": "The real coder runs on an integer-exact stand-in for jax; CDF entries are symbolic integers, renormalisation branches fork, so each path is one code string and the solver decides all tables of that path (non-linear integer arithmetic for the second symbol). The decoder's quotient comparison is encoded exactly as a cross-multiplication.",
 "P32": "The real craystack modules run on the integer-exact jax stand-in. One push/pop step is decided for symbolic heads, tails and intervals (symbolic products: the stand-in names factors so that the division lemma becomes syntactic); whole encode/decode, append and bits-back runs take fixed tables, solver-chosen messages and symbolic start buffers (heads and tails), with a term-equality oracle that folds reassembled heads back to the original terms.",
 "P33": "The real dataset classes run on a scratch directory of tiny images. Indices are symbolic integers (arithmetic stays symbolic, list access forks), directory orders, list-file orders, sampler orders and clip-sampler answers are solver-chosen, clip times are symbolic; expected items are computed from the index term.",
 "P34": "The real codec, model adapter and encoding script run on object arrays of symbolic numbers. craystack's codecs become abstract stack operations (a pop undoes exactly a push with equal parameters and equal data); model outputs are uninterpreted functions of their arguments, so equality of encoder and decoder parameters is decided by congruence. Crash points of the encoding script are solver-chosen; interval bounds and quantisation are decided over the reals with an axiomatised, monotone normal CDF.",
 "P35": "The number of diffusion steps is a symbolic integer (symbolic division, remainder and rounding); membership, distinctness and spacing of the chosen steps are integer claims. Options and world sizes are solver-chosen.",
 "P36": "The real modules run with a recording stand-in for lightning; model, discriminator and losses are small differentiable stand-ins with symbolic weights, gradients are taken symbolically and compared with the gradient of the stated loss.",
 "P37": "Every stage and the group loop run on symbolic clips, weights and likelihoods; losses, logged figures and gradients are compared with the recursion over decoded frames.",
 "P38": "The real lightning module with the real rate function; PSNR is an injective stand-in, so the claim is on the very images and slices it is given (bytes as floors of symbolic reals).",
 "P39": "The real data modules and torch loaders run on data sets of symbolic items; sizes, batch sizes and shuffles are solver-chosen, pixel values symbolic.",
 "P40": "The real training scripts, loaders, builders and zoo entries run with recording stand-ins for lightning, hydra and wandb in scratch directories; options, existing files, interruption points, ranks and dataset counts are solver-chosen, saved weights and step counts symbolic.",
 "P41": "The real evaluation scripts and image callbacks run on symbolic terms, decoded images, coded sizes and metric values; the other processes' contributions are recorded from runs of the same script under their rank and combined by a stand-in for torch.distributed.",
 "P30": "Histories (which tensor is passed, which are dropped, which freed identity the allocator hands out) are solver-chosen; the result must equal the function's value for the passed tensor.",
}
NOTES = """
## Behaviour examined and left alone (not defects of a listed property, or not small and safe to repair)

* `ContinuousEntropy._update` cuts its tables at symbol 0 (a test fixes the resulting table shape `[16, 6]`); P14 is scoped to priors whose tail stays above zero.
* The SwAV feature extractor normalises with 0.228 where ImageNet's standard deviation is 0.229: changing it changes published numbers.
* `RampCosine` measures the cosine angle over the total, not over total minus ramp; documentation does not fix either.
* `_ClampMin.backward` returns a single gradient; unreachable from the public API.
* The VQ coding cost is a floor to bytes.
* `UnetDiscriminator` with a factor of 2^levels or more has no output path; P23 is scoped below it.
* VCT: the evaluation forward takes the table of the unrounded mean while compress truncates the index (a rate estimate only); memoise treats positional and keyword arguments as different keys (efficiency only).
* craystack: with a nearly full tail, `dynamic_update_slice` clamps its start and silently overwrites data; `encode` documents that too small a capacity fails silently, and P32 is scoped to tails with room. A buffer can be extended only by messages whose lanes find normalised heads in it.

* An `iter()` in the middle of a CLIC video starts a fresh pass; `dataset[i]` while another video is still being read returns that video's next clip (random access is not what the iterable dataset documents).

## False alarms met while building, and what was done

* `arith.solver=2` gave a wrong `unsat` (see above): removed.
* P11: SSIM of a constant-zero pair hit 0/0 in an early encoding of the reference: the reference now uses the stabilised formula of the definition.
* P13: ties between equally near codewords: claim restated as 'no codeword is nearer'.
* P28: 'moved by at most one half' at larger latents made the query time out; claim restricted to latents of up to 4 positions (stated in the bounds).
* P20/P24: sizes of user-supplied encoders that round down rather than up are outside the property.
"""
