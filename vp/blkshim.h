/* .blk sources are preprocessed with __BLOCKS__; block types become function
 * pointers in the extracted text. */
#define __bridge
