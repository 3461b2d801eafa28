# writes /verif/properties.jsonl (kept in the tree so the file can be regenerated)
import json
S='boofcpp/src/boofcv/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
                   mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

prop('C01','Pixel addressing of gray images and their sub-image views',
 "Reading or writing pixel (x,y) of a gray image touches exactly the storage element offset + y*stride + x for coordinates inside the image, and a checked access outside the image throws instead of touching memory. A sub-image made from a rectangle shares storage with its parent, so its pixel (x,y) is the parent's pixel (x0+x, y0+y) for every legal rectangle (also of a sub-image), and illegal rectangles are rejected. Reported width, height, pixel count and the in-bounds test agree with the shape.",
 ['inputs','configurations'],'every shape, offset, stride, rectangle and coordinate, nested sub-images included',
 'Tests touch a handful of coordinates of one or two small images; no test asks for the height of a non-square image through the accessor, or nests sub-images with different offsets.',
 ['image_types.h'],[('Gray::at / unsafe_at / index_of','image_types.h'),('Gray::makeSubimage','image_types.h'),('ImageBase::isInBounds, getWidth, getHeight, total_pixels','image_types.h')],
 [('offset,stride','position of pixel (0,0) and distance between rows in the storage array','image_types.h')],['return values of the accessors, thrown exceptions, element addressed'])

prop('C02','Reshape, copy and assignment of gray images',
 "After a reshape an image has exactly the requested shape, owns enough storage for all of its pixels and is densely packed; a sub-image refuses to change shape. Copying makes the destination pixelwise equal to the source for every combination of full images and sub-images, leaves the source untouched and, when the destination is a sub-image, leaves every parent pixel outside of the view untouched. Assigning from a full image makes an independent copy; assigning from a sub-image makes a view of the same pixels.",
 ['inputs','histories','configurations'],'every pair of shapes, strides and offsets, and every pixel type; every history of reshapes',
 'Tests copy one or two 4x5-sized images; quantification over shapes, element sizes and grow/shrink histories is out of reach.',
 ['image_types.h'],[('Gray::reshape','image_types.h'),('Gray::copy','image_types.h'),('Gray::operator=','image_types.h')],
 [('data,data_length','owned storage and its capacity','image_types.h')],['pixels of both images and of the parent of a view, thrown exceptions'])

prop('C03','Interleaved images: addressing, bands, reshape and copy',
 "Band b of pixel (x,y) of an interleaved image is the storage element offset + y*stride + x*bands + b, and a checked access with a pixel or band outside of the image throws. Sub-images share the parent's pixels, changing the shape or the number of bands gives exactly the requested dense layout or is refused for a view. Copying another interleaved image makes every band of every pixel equal to the source's, for every element type.",
 ['inputs','histories','configurations'],'every shape, number of bands, rectangle, element type and coordinate',
 'Tests only build a few interleaved images and never copy one with an element type larger than a byte.',
 ['image_types.h'],[('Interleaved::at / unsafe_at / index_of','image_types.h'),('Interleaved::reshape, setNumberOfBands','image_types.h'),('Interleaved::setTo','image_types.h'),('Interleaved::makeSubimage','image_types.h')],
 [('num_bands,stride','layout of the interleaved array','image_types.h')],['return values, pixels, thrown exceptions'])

prop('C04','Growable arrays keep their contents and initialise new elements',
 "A growable array behaves like a sequence: resizing keeps the common prefix and sets every newly exposed element to the default value, filling sets every element, setting or assigning makes it equal to the source, and checked access past the end throws. The used size never exceeds the storage that is owned, whatever the history of operations and the element type. An array wrapped around somebody else's storage refuses every operation that would have to resize it and never frees it.",
 ['inputs','histories'],'every element type, value, size and sequence of operations',
 'Tests use one or two resizes of an 8-bit or zero-valued array; the multi-byte, non-zero-default and shrink-then-grow histories are not sampled.',
 ['base_types.h'],[('GrowArray::resize, grow_array','base_types.h'),('GrowArray::fill','base_types.h'),('GrowArray::set, setTo, operator=','base_types.h')],
 [('size,array_length,can_resize','used length, capacity and ownership','base_types.h')],['elements, size, thrown exceptions'])

prop('C05','Packed sets return exactly what was stored',
 "A packed set behaves like a list of lists: pushing appends to the last list, starting a set appends an empty list, removing the tail drops exactly the last list and its elements, and clearing empties it. Every element read back, by index or by loading a whole set, equals what was last written there, no matter how elements are spread over storage blocks. Out-of-range indexes and wrong-sized writes are refused.",
 ['histories','inputs'],'every block size, every number of elements and every sequence of operations',
 'Tests run a few scripted sequences with one block size; block-boundary crossings after removals are a property of all histories.',
 ['packed_sets.h'],[('PackedSet::push_tail/_add_element','packed_sets.h'),('PackedSet::start_new_set, remove_tail, clear','packed_sets.h'),('PackedSet::at, load_set, write_set','packed_sets.h')],
 [('blocks,_number_of_blocks,_size_of_block,_total_element,set_info','block storage and the directory of sets','packed_sets.h')],['returned elements, sizes, thrown exceptions'])

prop('C06','Border policies give the documented pixel outside the image',
 "Reading through a border policy returns the image's own pixel for every coordinate inside the image. Outside, the constant policy returns its value, the extend policy the nearest pixel, the reflect policy the mirrored pixel and the wrap policy the pixel modulo the image size; no coordinate, however far outside of a non-empty image, makes them read outside of the image's view.",
 ['inputs','configurations'],'every coordinate (negative and beyond the far edge included), image shape and sub-image',
 'Tests probe a few coordinates one or two pixels outside of one image.',
 ['image_border.h'],[('ImageBorder::get','image_border.h'),('ImageBorderValue/Extend/Reflect/Wrap::get_outside','image_border.h')],[],['returned pixel'])

prop('C07','Convolution equals its definition at every pixel',
 "For every image, kernel, kernel origin and border policy, each output pixel of the horizontal, vertical and two-dimensional convolution is the sum over the kernel of coefficient times the input pixel at that offset, with pixels outside the image supplied by the border policy. The specialised inner, unrolled and border code paths agree with this definition pixel for pixel for every kernel width, including kernels wider than the image. The input is not modified and only pixels of the output view are written.",
 ['inputs','configurations'],'every image shape, stride, pixel value, kernel width, origin and coefficient, and every border policy',
 'Tests compare a few random images of one size with a few kernels; seams between inner and border code depend on width, origin and shape combinations.',
 ['convolve.h','convolve_kernels.h','image_border.h'],[('ConvolveImage','convolve.h'),('ConvolveImage_Inner','convolve.h'),('ConvolveImage_Border','convolve.h'),('ConvolveNaive','convolve.h')],[],['every output pixel'])

prop('C08','Normalised convolution equals its definition at every pixel',
 "Each output pixel of the normalised convolution is the coefficient-weighted sum of the input pixels that fall inside the image divided by the sum of exactly the coefficients used, rounded to nearest for integer images. This holds at every pixel, for every image shape and kernel with a positive coefficient sum at each position, including kernels wider than the image. Only pixels of the output view are written.",
 ['inputs','configurations'],'every image shape, stride, pixel value, kernel width, origin and coefficients',
 'Tests compare implementations on one image size with a few symmetric kernels.',
 ['convolve.h'],[('ConvolveNormalizedNaive','convolve.h'),('ConvolveNormalized_JustBorder','convolve.h'),('ConvolveNormalized','convolve.h')],[],['every output pixel'])

prop('C09','Mean blur equals the box mean at every pixel',
 "The mean filter writes, for every pixel, the (rounded, for integer images) average of the input pixels within the radius along the row and then along the column, using only pixels inside the image. It does so for every image shape and every positive radius, including a window wider or taller than the image. It never reads or writes outside of the image views.",
 ['inputs','configurations'],'every image shape (wide and short, narrow and tall), stride and radius',
 'Tests use one image size with small radii; the sliding-window update and the shape/radius case split are universally quantified.',
 ['image_blur.h','convolve.h'],[('ConvolveImageMean::inner_horizontal/inner_vertical','image_blur.h'),('ConvolveImageMean::horizontal/vertical','image_blur.h'),('BlurImageOps::mean','image_blur.h')],[],['every output pixel'])

prop('C10','Global threshold classifies every pixel',
 "Thresholding produces a binary image of the input's shape whose pixel is one exactly when the input pixel is at most the threshold (or greater than it when the direction is reversed). It does so for every pixel, image shape, sub-image and pixel type, leaves the input unchanged and writes nothing outside the output view.",
 ['inputs','configurations'],'every image, stride, threshold and direction',
 'Tests threshold a couple of random images of one size.',
 ['binary_ops.h'],[('ThresholdOps::threshold','binary_ops.h')],[],['every output pixel'])

prop('C11','Pixelwise logic on binary images',
 "The logical and / or of two binary images gives, for every pixel, the and / or of the two corresponding input pixels. This holds for every shape and mix of sub-images and when the output is one of the inputs; inputs of different shapes are refused and nothing outside of the output view changes.",
 ['inputs','configurations'],'every pair of same-shaped images, every stride/offset combination, in-place use',
 'Tests use two small full images.',
 ['binary_ops.cpp','binary_ops.h'],[('BinaryImageOps::logicAnd/logicOr','binary_ops.cpp')],[],['every output pixel'])

prop('C12','Erosion and dilation with the 4-neighbourhood',
 "In the interior of the image the eroded pixel is one exactly when it and its four neighbours are one, and the dilated pixel is one exactly when any of them is one. This holds for every binary image, shape and sub-image; the input is not modified, nothing outside of the output view is written, and no image size makes the operation read or write outside of the images.",
 ['inputs','configurations'],'every binary image of every shape, including empty and one-pixel-thin images',
 'Tests use a few hand-written images of one size.',
 ['binary_ops.cpp'],[('BinaryImageOps::erode4/dilate4','binary_ops.cpp')],[],['every interior output pixel'])

prop('C13','Image statistics are those of the pixels of the image',
 "Minimum, maximum, sum, mean and histogram are computed from every pixel of the image exactly once and from nothing else: for a sub-image only the pixels in its view count. This holds for every pixel type and value, negative values included, and the histogram counts each value relative to the given minimum.",
 ['inputs','configurations'],'every image shape, stride, pixel type and value',
 'Tests only use full images with mostly non-negative values.',
 ['image_statistics.h'],[('ImageStatistics::min,max,sum,mean','image_statistics.h'),('ImageStatistics::histogram','image_statistics.h')],[],['returned value, histogram elements'])

prop('C14','Otsu threshold maximises the between-class variance',
 "The threshold chosen by Otsu's method from a histogram maximises the between-class variance over all candidate thresholds that split the pixels into two non-empty classes, and is the first such candidate. The image version returns that threshold expressed as a pixel value, for every value range requested.",
 ['inputs'],'every histogram, pixel count, value range and image',
 'Tests check one bimodal histogram with zero minimum.',
 ['binary_ops.cpp','binary_ops.h'],[('ComputeOtsu::compute','binary_ops.cpp'),('ThresholdOps::computeOtsu','binary_ops.h')],[],['returned threshold'])

prop('C15','Local thresholds compare each pixel with its own neighbourhood',
 "The local mean threshold marks a pixel exactly when the pixel is at most the mean of its surrounding window times the scale (or, reversed, when the pixel times the scale is greater than that mean). The filter objects give the same result as the operation they wrap for every image and repeated use with images of different shapes. Nothing but the output and the work images is written.",
 ['inputs','configurations','histories'],'every image shape, window width, scale and direction, and every sequence of images given to one filter',
 'Tests run one image per filter and compare with the same operation.',
 ['binary_ops.h','binary_ops.cpp'],[('ThresholdOps::localMean','binary_ops.h'),('threshold filters','binary_ops.h')],[],['every output pixel'])

prop('C16','Block thresholds use every pixel once and classify every pixel',
 "A block threshold splits the image into a grid of blocks that cover every pixel exactly once, gathers each block's statistic from exactly its pixels, and decides every output pixel by comparing it with the statistic of the blocks around it (or of its own block alone). This holds for every image shape, requested block width, and mean, min-max and Otsu variants; the documented settings that disable parts of the method do disable them. Every output pixel is written and nothing outside the view.",
 ['inputs','configurations'],'every image shape, stride, block width, scale, spread and direction',
 'Tests use one image size with a few block widths and compare only a few pixels.',
 ['threshold_block_filters.h'],[('ThresholdBlockCommon::process','threshold_block_filters.h'),('ThresholdBlockMean/MinMax/Otsu','threshold_block_filters.h')],[],['every output pixel'])

prop('C17','Contour labelling labels connected components and traces their borders',
 "For every binary image, labelling assigns zero to background, a positive label shared by exactly the pixels of one connected component (4- or 8-connected as requested) and numbers components 1..N. For each component it returns its external contour and the contour of each of its holes, made only of pixels of that component that lie on that border.",
 ['inputs','configurations'],'every binary image of every shape, both connectivity rules',
 'Tests use a dozen hand-written images.',
 ['contour.cpp','contour.h'],[('LinearContourLabelChang2004::process','contour.cpp'),('ContourTracer::trace','contour.cpp')],[('labeled image','label of every pixel','contour.h')],['label image, contours'])

prop('C18','Filling an image or its frame sets exactly those pixels',
 "Filling sets every pixel (every band) of the image view to the value, filling the frame sets exactly the pixels within the given distance of the image edge, and filling with random values sets every pixel to a value in the requested range. This holds for every shape and sub-image; no pixel outside of the view, or inside the frame's interior, changes.",
 ['inputs','configurations'],'every shape, stride, border width (also wider than the image) and value',
 'Tests fill one full image and look at a few pixels; no sub-image is filled.',
 ['image_misc_ops.h'],[('ImageMiscOps::fill','image_misc_ops.h'),('ImageMiscOps::fill_border','image_misc_ops.h'),('ImageMiscOps::fill_uniform','image_misc_ops.h')],[],['every pixel of the storage'])

prop('C19','Averaging an interleaved image to gray',
 "Converting an interleaved image to gray by averaging produces an image of the same shape whose pixel is the average over the bands of that input pixel. This holds for every shape, number of bands, sub-image and pixel type; the input is unchanged and only the output view is written.",
 ['inputs','configurations'],'every shape, stride and number of bands',
 'Tests use a single three-band image.',
 ['image_convert.h'],[('convert_average','image_convert.h')],[],['every output pixel'])

prop('C20','Generated kernels have the documented shape and content',
 "The box kernels are all ones (or all 1/n) of the requested width with the documented origin; Gaussian kernels have the requested or automatically chosen odd width, are symmetric around their origin and never negative. Element access addresses exactly the coefficient asked for and refuses positions outside; the coefficient sum is the sum of all coefficients. Even and otherwise illegal widths are rejected.",
 ['inputs'],'every width, radius and sigma',
 'Tests build a few kernels.',
 ['convolve_kernels.h'],[('Kernel1D, Kernel2D','convolve_kernels.h'),('FactoryKernel','convolve_kernels.h'),('KernelOps','convolve_kernels.h')],[],['kernel coefficients, width, offset'])

prop('C21','Lengths given as fixed or relative values',
 "A fixed length is used as it is; a relative length is the given fraction of the total, and neither ever falls below the configured minimum. The integer form is the rounded value of that length, for every length, fraction, minimum and total.",
 ['inputs'],'every length, fraction, minimum and total',
 'Tests check a few values.',
 ['config_types.cpp','config_types.h'],[('ConfigLength::compute / computeI','config_types.cpp')],[],['returned value'])

prop('C22','Shape mismatches are refused before anything is written',
 "Operations that require their images to have the same shape refuse any mismatch before writing a single pixel. Operations documented to resize their output give it exactly the input's shape before they write, whatever shape it had before, and refuse when the output is a view of a different shape.",
 ['inputs','configurations','histories'],'every pair of shapes, full images and views',
 'Tests pass matching shapes nearly everywhere.',
 ['sanity_checks.cpp','image_types.h','convolve.h','binary_ops.h','binary_ops.cpp','image_convert.h'],[('checkSameShape','sanity_checks.cpp'),('Gray::reshape','image_types.h')],[],['thrown exceptions, output shape, storage of the output on refusal'])

prop('C23','Planar images keep one full image per band',
 "A planar image owns one gray image per band, all of the planar image's shape; reshaping or changing the number of bands keeps that true and keeps the surviving bands. Band access outside the range is refused, and every band is released exactly once.",
 ['inputs','histories'],'every shape, number of bands and history',
 'The planar tests are empty.',
 ['image_types.h'],[('Planar','image_types.h')],[],['bands, shapes, exceptions'])

prop('C24','Java bridge hands every array back exactly once',
 "Every Java array pinned by the native bridge is handed back exactly once on every path, including when the native operation throws, and the native image views used in between describe exactly the Java image.",
 ['inputs','fault_sequences'],'every Java image and every failure of the native operation',
 'No test runs the bridge.',
 ['../../../boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp'],[('JNI acquire/release','../../../boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp')],[],['JNI calls made'])

prop('C25','Normalised floating-point kernels sum to one',
 "Normalising a floating-point kernel makes its coefficients sum to one up to rounding and keeps their ratios, for one- and two-dimensional kernels.",
 ['inputs'],'every kernel with a non-zero sum',
 'Tests normalise a few kernels.',
 ['convolve_kernels.h'],[('FactoryKernel::normalize / KernelOps','convolve_kernels.h')],[],['kernel coefficients'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
