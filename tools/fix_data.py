OPEN = []
FIXES = [
 ("P05", "lower_bound disconnected gradient", "lower_bound(gradient='disconnected') returned the input as gradient instead of the masked upstream gradient"),
 ("P05", "lower_bound accepts", "lower_bound(x, 0.5) with the documented float bound raised"),
 ("P06", "log_cdf of a Uniform", "log_cdf(Uniform(a,b)) ignored a and b"),
 ("P06", "log_survival_function", "log_survival_function computed log(1+cdf(-x)) for non-normal distributions"),
 ("P06", "log_ndtr lower-tail", "log_ndtr's lower-tail series used the double factorials one term late"),
 ("P06", "estimate_tails", "estimate_tails never stopped when the gradient vanished at the solution"),
 ("P07", "UniformNoise passed", "UniformNoise passed batch and event shape in the wrong order"),
 ("P07", "UniformNoise.rsample", "UniformNoise.rsample drew one noise value per sample instead of one per component"),
 ("P07", "UniformNoise.expand", "UniformNoise.expand dropped the noise"),
 ("P09", "information_content", "information_content(reduction per batch element) rejected non-contiguous probabilities"),
 ("P10", "calc_psnr_numpy", "calc_psnr_numpy wrapped around on unsigned integer images"),
 ("P13", "QBottleneck.reset_hits", "QBottleneck.reset_hits did not reset the counters"),
 ("P14", "ContinuousEntropy.quantize", "ContinuousEntropy.quantize raised a TypeError for floating-point input"),
 ("P14", "ContinuousEntropy.prior", "ContinuousEntropy.prior was unavailable unless compressible"),
 ("P14", "ContinuousEntropy built", "ContinuousEntropy built its tables along the wrong axis and without the quantisation offset"),
 ("P19", "KernelInceptionDistance", "KernelInceptionDistance ignored its subset and kernel parameters"),
 ("P20", "HiFiC quantized", "HiFiC reported likelihoods of the noisy training hyper-latent as those of the quantised one"),
 ("P24", "DVC.decompress", "DVC.decompress asked for a latent one too small for odd sizes"),
 ("P23", "U-Net discriminator shortcuts", "U-Net discriminator shortcuts saw the activated input of their block (in-place activation)"),
 ("P23", "U-Net discriminator with", "output_downsampling_factor=2 did not clip the top level"),
 ("P28", "VCTEntropyModel did not raise", "VCTEntropyModel accepted a short history with an unsupported context length without raising"),
 ("P28", "VCTEntropyModel.compress without", "VCTEntropyModel.compress(run_decode=False) returned round(latent), which the decoder does not produce"),
 ("P29", "ConvGDNSynthesis", "ConvGDNSynthesis reported 192 compression channels whatever it was built with"),
 ("P29", "VCTPipeline did not pass", "VCTPipeline did not pass its context length to the entropy model"),
 ("P30", "memoize could", "memoize could return the result of a freed tensor with the same id"),
 ("P31", "arithmetic coder lost", "the arithmetic coder silently lost its last byte when the code filled the buffer exactly (e.g. CDF [0,50048,50112,65536], message [1], one byte per symbol)"),
 ("P33", "CLIC2020Video took", "CLIC2020Video listed videos and frames in directory order (frames of a clip out of order)"),
 ("P33", "CLIC2020Video dropped", "CLIC2020Video drew, and lost, a new video for every further clip of the current one"),
 ("P33", "CLIC2020Video was", "CLIC2020Video delivered nothing from the second pass on"),
 ("P33", "Kodak force_download", "Kodak(download=True, force_download=True) raised FileExistsError on an existing directory"),
 ("P33", "Vimeo90kSeptuplet image", "Vimeo90kSeptuplet in image mode without pil_transform raised TypeError instead of returning the image"),
 ("P34", "bits-back codec saves", "a codec restored from its state had forgotten its extra bytes and reported a wrong rate"),
 ("P34", "centre Gaussian bins", "bins of the observation model were not centred on the data levels unless the data range was two wide (e.g. range [0,1])"),
 ("P36", "GAN training works", "GAN training and evaluation raised TypeError with the unconditional UnetDiscriminator"),
 ("P37", "DVC compresses the I-frame", "compress_iframe overwrote the first frame of the caller's clip (the logged image batch degraded with every epoch)"),
 ("P37", "DVC validation counts", "validation left the I-frame's bits out of the logged rate but divided by all frames"),
 ("P38", "VCT clamps", "reconstructions outside [0,1] wrapped around when converted to bytes for PSNR_int"),
 ("P39", "OpenImagesDataModule loads", "the training loader raised ValueError with the default of no worker processes"),
 ("P40", "VCT training ignores", "VCT training resumed from an old checkpoint although checkpoint.overwrite was set"),
 ("P39", "UVGDataModule normalizes", "UVGDataModule(normalize=True) raised RuntimeError on every image"),
]
