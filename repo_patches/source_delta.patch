From 44e40cb6b74edd9f5d6930714b09e2f6b6881079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 01/14] fix: do not leak bits above the integer width to later
 bitpack writes

The pending byte kept the bits of the integer above the requested width when
the integer crossed a byte boundary. Later writes were OR'd on top of them,
corrupting residue cascades with high bits set and negative signed integers.
---
 packages/vorbis_bitpack/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index e1a8dd6..107c4ab 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -349,7 +349,12 @@ impl<W: Write> BitpackWriter<W> {
 		// at most 3 bytes, so the shift never overflows
 		integer >>= 8 * bytes_to_write;
 
-		self.byte_to_be_written = integer as u8;
+		// Any bits above the requested width must not make it to the pending byte, because
+		// further writes assume that its free bits are set to zero
+		self.byte_to_be_written = (integer
+			& ones_mask(BitpackedIntegerWidth::__internal_unchecked_new(
+				remainder_bits
+			))) as u8;
 		self.bits_to_be_written = remainder_bits;
 
 		Ok(())
-- 
2.43.0


From 45d6c9bcf23f3d973111b46c512af030a9acf75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 02/14] fix: start with a clean pending byte after finalizing a
 bitpack writer

Writes that followed a call to finalize had the bits of the finalized byte
OR'd into them.
---
 packages/vorbis_bitpack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 107c4ab..7742f17 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -410,8 +410,9 @@ impl<W: Write> BitpackWriter<W> {
 	/// destination after a call to [`flush`](Self::flush).
 	pub fn finalize(&mut self) -> Result<()> {
 		if self.bits_to_be_written > 0 {
+			let pending_byte = core::mem::take(&mut self.byte_to_be_written);
 			self.bits_to_be_written = 0;
-			self.sink.write_all(&[self.byte_to_be_written])
+			self.sink.write_all(&[pending_byte])
 		} else {
 			Ok(())
 		}
-- 
2.43.0


From f10b409590786bf8411d60f129c162913a177705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 03/14] fix: support reading zero-width signed bitpacked
 integers

The documentation states that signed integers may be 0 bits wide, but reading
them panicked due to a shift overflow if overflow checks are enabled.
---
 packages/vorbis_bitpack/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 7742f17..1ecdd38 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -443,6 +443,11 @@ const fn ones_mask(width: BitpackedIntegerWidth) -> u32 {
 /// Converts the specified variable-width signed integer in an unsigned constant-size
 /// word to a native 32-bit signed integer.
 const fn sign_extend(integer: u32, width: BitpackedIntegerWidth) -> i32 {
+	// Zero-width integers would make the shift amounts below overflow
+	if width.get() == 0 {
+		return 0;
+	}
+
 	let extended_bits = 32 - width.get() as u32;
 	(integer as i32) << extended_bits >> extended_bits
 }
-- 
2.43.0


From 2c40cb5cc234f85a484944798a756a8d3dfa5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 04/14] fix: preserve zero and numbers of small magnitude when
 packing Vorbis floats

The implicit IEEE-754 bit was added to the mantissa unconditionally, so zero
was packed as a non-zero number. Numbers with a exponent lower than the
minimum were scaled up. Both can appear as the minimum or delta values of VQ
codebooks, which were altered in the optimized setup header.
---
 packages/vorbis_bitpack/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 1ecdd38..c15d89c 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -520,8 +520,12 @@ fn float32_pack(float: f64) -> u32 {
 	let exponent_component = adjusted_exponent << 21;
 
 	// Copy the mantissa, ignoring any least significant digits we cannot store.
-	// Add the implicit 1 bit, required by IEEE-754 for normal floats
-	let mantissa_component = ((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32 | 0x10_00_00;
+	// Add the implicit 1 bit, required by IEEE-754 for normal floats. Numbers whose exponent is
+	// lower than the minimum, which include zero, are represented by denormalizing the mantissa
+	let mantissa_component = (((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32
+		| 0x10_00_00)
+		.checked_shr(u32::saturating_sub(235 + 20, exponent))
+		.unwrap_or(0);
 
 	sign_component | exponent_component | mantissa_component
 }
-- 
2.43.0


From 1e7d6404c579d3885519c985dc4d3a6907f7397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 05/14] fix: compute the number of lookup type 1 values exactly

The result of the floating point root was off by one for some codebooks with
more than a million entries, so the parse of the setup header got out of sync.
---
 .../src/vorbis/optimizer/setup_header_parse.rs  | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 5f2d60c..512db37 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -911,7 +911,22 @@ fn lookup1_values(codebook_entries: u32, codebook_dimensions: u16) -> u32 {
 	if codebook_dimensions == 0 {
 		u32::MAX
 	} else {
-		(codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32
+		// The floating point result may be off by one due to rounding, so correct it
+		let mut values = (codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32;
+		let is_too_big = |values: u32| {
+			(values as u64)
+				.checked_pow(codebook_dimensions as u32)
+				.is_none_or(|entries| entries > codebook_entries as u64)
+		};
+
+		while is_too_big(values) {
+			values -= 1;
+		}
+		while !is_too_big(values + 1) {
+			values += 1;
+		}
+
+		values
 	}
 }
 
-- 
2.43.0


From 20c2c153ca2b958b25fa9b126a0b4f5b20999d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 06/14] fix: decode any bit to the only used entry of sparse
 codebooks

Codebooks with a single used entry are defined to decode any bit to it, but
that was done only if the codebook had no unused entries.
---
 packages/optivorbis/src/vorbis/codebook/huffman_tree.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
index 8b61888..cba59d3 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
@@ -67,16 +67,19 @@ impl VorbisHuffmanTree {
 		// This is a deviation from the specification, but provides for a
 		// simpler implementation and maybe some corrupt stream recovery
 		// capabilities
-		if codeword_lengths == [1] {
+		let mut used_entries = (0..)
+			.zip(codeword_lengths.iter().copied())
+			.filter(|(_, codeword_length)| *codeword_length != 0);
+		if let (Some((number, 1)), None) = (used_entries.next(), used_entries.next()) {
 			return Ok(VorbisHuffmanTreeBuilder {
 				arena: Bump::new(),
 				root_builder: |arena| VorbisHuffmanTreeNode {
 					left_child: Some(arena.alloc(VorbisHuffmanTreeNode {
-						entry: Some(VorbisHuffmanTreeEntry { number: 0 }),
+						entry: Some(VorbisHuffmanTreeEntry { number }),
 						..Default::default()
 					})),
 					right_child: Some(arena.alloc(VorbisHuffmanTreeNode {
-						entry: Some(VorbisHuffmanTreeEntry { number: 0 }),
+						entry: Some(VorbisHuffmanTreeEntry { number }),
 						..Default::default()
 					})),
 					entry: None
-- 
2.43.0


From a934ca347f61affd986bd611fba1028d7093264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 07/14] fix: keep optimal codewords within the 32 bits
 supported by Vorbis

Fibonacci-like entry use counts yield longer Huffman codewords, which caused a
panic or a corrupt setup header.
---
 .../optivorbis/src/vorbis/codebook/mod.rs     | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/mod.rs b/packages/optivorbis/src/vorbis/codebook/mod.rs
index ec1110a..304ae98 100644
--- a/packages/optivorbis/src/vorbis/codebook/mod.rs
+++ b/packages/optivorbis/src/vorbis/codebook/mod.rs
@@ -169,10 +169,25 @@ impl VorbisCodebook {
 	pub(super) fn optimal_codeword_lengths(&mut self) -> &[u64] {
 		if self.recording_decode_frequencies {
 			self.recording_decode_frequencies = false;
-			VorbisCodebookNumberFrequenciesDecorator::new(
-				self.entry_decode_frequencies_or_lengths.get_mut()
-			)
-			.into_huffman_codeword_lengths()
+
+			let frequencies_or_lengths = self.entry_decode_frequencies_or_lengths.get_mut();
+			let mut frequencies = frequencies_or_lengths.clone();
+
+			loop {
+				VorbisCodebookNumberFrequenciesDecorator::new(frequencies_or_lengths.as_mut_slice())
+					.into_huffman_codeword_lengths();
+
+				// Vorbis codewords are up to 32 bits long, but Fibonacci-like frequencies may yield
+				// longer ones. In that very rare case, smooth out the frequencies until they don't
+				if frequencies_or_lengths.iter().all(|length| *length <= 32) {
+					break frequencies_or_lengths;
+				}
+
+				for frequency in &mut frequencies {
+					*frequency = frequency.div_ceil(2);
+				}
+				frequencies_or_lengths.copy_from_slice(&frequencies);
+			}
 		} else {
 			self.entry_decode_frequencies_or_lengths.get_mut()
 		}
-- 
2.43.0


From 1cc0fec2ae86aca1ca60bb5037b398af78e2e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 08/14] fix: do not print the CLI header to standard output
 along with audio data

When the output file is - the generated Ogg Vorbis stream was preceded by the
program header, which makes it unreadable.
---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index a0b77a9..c306c9b 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -113,7 +113,7 @@ fn run() -> Result<(), Cow<'static, str>> {
 	match options.parse(env::args().skip(1)) {
 		Ok(matches) => {
 			if matches.opt_present("h") {
-				print_header();
+				println!("{}", header());
 				println!();
 				println!("Usage:");
 				print!(
@@ -122,13 +122,17 @@ fn run() -> Result<(), Cow<'static, str>> {
 				);
 				println!("{}", options.usage(""));
 			} else if matches.opt_present("version") {
-				print_header();
+				println!("{}", header());
 			} else {
 				let quiet_mode = matches.opt_present("q");
 
 				if !quiet_mode {
-					print_header();
-					println!();
+					// The header must not be mixed up with the data written to standard output
+					if matches.free.get(1).is_some_and(|file_name| file_name == "-") {
+						eprintln!("{}\n", header());
+					} else {
+						println!("{}\n", header());
+					}
 				}
 
 				if matches.free.len() != 2 {
@@ -303,10 +307,12 @@ fn init_logging(option_matches: &Matches, quiet_mode: bool) {
 		.unwrap();
 }
 
-fn print_header() {
-	println!("{OPTIVORBIS_VERSION_TAG}");
-	println!("{}", env!("CARGO_PKG_DESCRIPTION"));
-	println!("Copyright (C) {}", env!("CARGO_PKG_AUTHORS"));
+fn header() -> String {
+	format!(
+		"{OPTIVORBIS_VERSION_TAG}\n{}\nCopyright (C) {}",
+		env!("CARGO_PKG_DESCRIPTION"),
+		env!("CARGO_PKG_AUTHORS")
+	)
 }
 
 enum AvailableRemuxer {
-- 
2.43.0


From 665289cf1a30707c764145336ba3f958df01b9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 09/14] fix: report errors that happen while flushing CLI
 output

Buffered data was written when dropping the output writer, which ignores any
error, so the program reported success after generating truncated files.
---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index c306c9b..fa16ae6 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -257,7 +257,11 @@ fn remux<F: Read + Seek>(
 			let remux_begin = Instant::now();
 			OggToOgg::new(remuxer_settings, optimizer_settings)
 				.remux(input_file, output_file)
-				.map(|_| remux_begin.elapsed())
+				.and_then(|output_file| {
+					// Errors writing any buffered data would be ignored if we don't flush it
+					output_file.flush()?;
+					Ok(remux_begin.elapsed())
+				})
 		}
 	} {
 		Ok(duration) => {
-- 
2.43.0


From 1d23e5affc87cf784da1bf67fbac38ec50eb2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 10/14] fix: build Huffman trees in time linear to the number
 of entries

Each insertion walked every entry inserted before, so files of a few hundred
bytes that declare codebooks with many entries took hours to process.
---
 .../src/vorbis/codebook/huffman_tree.rs       | 122 +++++++++++-------
 1 file changed, 77 insertions(+), 45 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
index cba59d3..8090578 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_tree.rs
@@ -82,7 +82,8 @@ impl VorbisHuffmanTree {
 						entry: Some(VorbisHuffmanTreeEntry { number }),
 						..Default::default()
 					})),
-					entry: None
+					entry: None,
+					full: true
 				}
 			}
 			.build());
@@ -100,13 +101,14 @@ impl VorbisHuffmanTree {
 						continue;
 					}
 
-					let (entry, _) = root
-						.leftmost_free_leaf_at_depth(codeword_length, arena)
-						.ok_or(TryFromCodewordLengthsListError::OverspecifiedTree)?;
-
-					entry.entry = Some(VorbisHuffmanTreeEntry {
-						number: entry_number as u32
-					});
+					root.insert_at_leftmost_free_leaf(
+						codeword_length,
+						VorbisHuffmanTreeEntry {
+							number: entry_number as u32
+						},
+						arena
+					)
+					.ok_or(TryFromCodewordLengthsListError::OverspecifiedTree)?;
 				}
 
 				Ok(root)
@@ -139,14 +141,16 @@ impl VorbisHuffmanTree {
 				continue;
 			}
 
-			let (entry, codeword) = root
-				.leftmost_free_leaf_at_depth(codeword_length, &arena)
+			let codeword = root
+				.insert_at_leftmost_free_leaf(
+					codeword_length,
+					VorbisHuffmanTreeEntry {
+						number: entry_number as u32
+					},
+					&arena
+				)
 				.ok_or(TryFromCodewordLengthsListError::OverspecifiedTree)?;
 
-			entry.entry = Some(VorbisHuffmanTreeEntry {
-				number: entry_number as u32
-			});
-
 			codewords[entry_number] = Some((codeword, codeword_length));
 		}
 
@@ -170,7 +174,7 @@ impl Debug for VorbisHuffmanTree {
 }
 
 /// A Vorbis Huffman tree entry. Currently, it only holds its number.
-#[derive(Debug)]
+#[derive(Clone, Copy, Debug)]
 #[repr(transparent)]
 pub(super) struct VorbisHuffmanTreeEntry {
 	/// The number of this entry.
@@ -206,23 +210,26 @@ impl<V> VorbisHuffmanTreeWalker<'_, '_, V> {
 struct VorbisHuffmanTreeNode<'tree, V> {
 	left_child: Option<&'tree mut VorbisHuffmanTreeNode<'tree, V>>,
 	right_child: Option<&'tree mut VorbisHuffmanTreeNode<'tree, V>>,
-	entry: Option<V>
+	entry: Option<V>,
+	/// Whether no more entries can be inserted in this node and beneath it.
+	full: bool
 }
 
-impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
-	/// Finds the leftmost free leaf in this tree at a certain depth,
-	/// returning the would-be codeword for it and allocating any new
-	/// nodes in the specified arena.
+impl<'tree, V: Copy> VorbisHuffmanTreeNode<'tree, V> {
+	/// Inserts an entry in the leftmost free leaf in this tree at a certain
+	/// depth, returning its codeword and allocating any new nodes in the
+	/// specified arena.
 	///
 	/// # Preconditions
 	/// `depth` is less than or equal to 32.
-	fn leftmost_free_leaf_at_depth<'this>(
-		&'this mut self,
+	fn insert_at_leftmost_free_leaf(
+		&mut self,
 		depth: u8,
+		entry: V,
 		arena: &'tree Bump
-	) -> Option<(&'this mut Self, u32)> {
-		self.leftmost_free_leaf_at_depth_internal(depth, 0, arena)
-			.map(|(leaf, codeword)| {
+	) -> Option<u32> {
+		self.insert_at_leftmost_free_leaf_internal(depth, entry, 0, arena)
+			.map(|codeword| {
 				// The codeword returned by this method is meant to be interpreted in
 				// MSB -> LSB order, skipping the 32 - depth most significant bits, but
 				// codewords are read from and written to Vorbis streams in LSB -> MSB
@@ -233,25 +240,31 @@ impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
 				// such a depth parameter because zero-length codewords are used to
 				// encode unused entries
 				let offset = u32::BITS - depth as u32;
-				(leaf, codeword.wrapping_shl(offset).reverse_bits())
+				codeword.wrapping_shl(offset).reverse_bits()
 			})
 	}
 
-	fn leftmost_free_leaf_at_depth_internal<'this>(
-		&'this mut self,
+	fn insert_at_leftmost_free_leaf_internal(
+		&mut self,
 		depth: u8,
+		entry: V,
 		codeword_so_far: u32,
 		arena: &'tree Bump
-	) -> Option<(&'this mut Self, u32)> {
-		// Base case 1: occupied nodes are not free and can't have free nodes beneath them
-		if self.entry.is_some() {
+	) -> Option<u32> {
+		// Base case 1: occupied nodes are not free and can't have free nodes beneath them.
+		// Not looking into full subtrees keeps the cost of each insertion independent from
+		// the number of entries already inserted
+		if self.full {
 			return None;
 		}
 
 		// Base case 2: this node is a leftmost free leaf candidate
 		if depth == 0 {
 			return if self.left_child.is_none() && self.right_child.is_none() {
-				Some((self, codeword_so_far))
+				self.entry = Some(entry);
+				self.full = true;
+
+				Some(codeword_so_far)
 			} else {
 				None
 			};
@@ -259,18 +272,36 @@ impl<'tree, V> VorbisHuffmanTreeNode<'tree, V> {
 
 		// Recursive cases: expand and try finding a free leaf in the left child.
 		// If that does not yield a leaf, try the right child
-		self.left_child
-			.get_or_insert_with(|| arena.alloc(Self::default()))
-			.leftmost_free_leaf_at_depth_internal(depth - 1, codeword_so_far, arena)
-			.or_else(|| {
-				self.right_child
-					.get_or_insert_with(|| arena.alloc(Self::default()))
-					.leftmost_free_leaf_at_depth_internal(
-						depth - 1,
-						codeword_so_far | (1 << (depth - 1)),
-						arena
-					)
-			})
+		let left_child = self
+			.left_child
+			.get_or_insert_with(|| arena.alloc(Self::default()));
+		if let Some(codeword) = left_child.insert_at_leftmost_free_leaf_internal(
+			depth - 1,
+			entry,
+			codeword_so_far,
+			arena
+		) {
+			self.full = left_child.full
+				&& self
+					.right_child
+					.as_ref()
+					.is_some_and(|right_child| right_child.full);
+
+			return Some(codeword);
+		}
+
+		let right_child = self
+			.right_child
+			.get_or_insert_with(|| arena.alloc(Self::default()));
+		let codeword = right_child.insert_at_leftmost_free_leaf_internal(
+			depth - 1,
+			entry,
+			codeword_so_far | (1 << (depth - 1)),
+			arena
+		);
+		self.full = left_child.full && right_child.full;
+
+		codeword
 	}
 }
 
@@ -279,7 +310,8 @@ impl<V> Default for VorbisHuffmanTreeNode<'_, V> {
 		Self {
 			left_child: None,
 			right_child: None,
-			entry: None
+			entry: None,
+			full: false
 		}
 	}
 }
-- 
2.43.0


From 69ecae46d83a712654c4627008039dc7b67c3931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:31 +0000
Subject: [PATCH 11/14] fix: take the implicit points of floors into account
 when validating them

The specification limits floors to 65 points, two of which are implicit, and
does not allow repeating the implicit one at zero.
---
 .../src/vorbis/optimizer/setup_header_parse.rs      | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 512db37..96b7a79 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -539,21 +539,24 @@ fn parse_floor1_configurations<R: Read>(
 			IndexSet::with_capacity(partition_class_list.len() * maximum_class_dimension as usize);
 		for current_class in partition_class_list.iter().copied().map(|c| c as usize) {
 			for _ in 0..class_dimensions[current_class] {
-				if !x_list.insert(bitpack_packet_read!(
+				let x_value = bitpack_packet_read!(
 					bitpacker,
 					read_unsigned_integer,
 					header_length,
 					mut range_bits,
 					u16
-				)?) {
-					// The specification does not allow repeated values
+				)?;
+
+				if x_value == 0 || !x_list.insert(x_value) {
+					// The specification does not allow repeated values. The first two values are
+					// implicit, and the first one is zero. The second one can't be repeated here
 					return Err(VorbisOptimizerError::RepeatedFloor1Point(i));
 				}
 			}
 		}
 
-		// Limit imposed by the specification
-		if x_list.len() > 65 {
+		// Limit imposed by the specification, minus the two implicit values
+		if x_list.len() > 63 {
 			return Err(VorbisOptimizerError::TooManyFloor1Points(i));
 		}
 
-- 
2.43.0


From 45afad4c3b3ef3d3e49b4ee85864b438d1b337b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 12/14] fix: process a file dropped on the button of the web
 page only once

The button is within the label, and both listen to drop events. The event of a drop on the button also reached the label, so the worker optimized the file twice, and the page showed two results.
---
 web/src/ts/input_file_drop_zone.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/web/src/ts/input_file_drop_zone.ts b/web/src/ts/input_file_drop_zone.ts
index 195ea44..552025a 100644
--- a/web/src/ts/input_file_drop_zone.ts
+++ b/web/src/ts/input_file_drop_zone.ts
@@ -55,6 +55,10 @@ function handleAudioFileDrop(event: DragEvent) {
     fileInputLabel.classList.remove(...dropHighlightElementClasses);
 
     event.preventDefault();
+
+    // The button is within the label, and both listen to this event, so a file that
+    // is dropped on the button would be processed twice if the event bubbled up
+    event.stopPropagation();
   }
 }
 
-- 
2.43.0


From d930ed46448dad946e3a582a057f097f46180974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 13/14] fix: codewords limited to 32 bits were not optimal

When frequencies would yield codewords longer than 32 bits, they were halved until they didn't, which does not give the shortest code. Use package-merge instead.
---
 .../codebook/huffman_codeword_lengths.rs      | 69 +++++++++++++++++++
 .../optivorbis/src/vorbis/codebook/mod.rs     | 27 ++++----
 2 files changed, 81 insertions(+), 15 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
index 4752eab..f381bd0 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
@@ -175,6 +175,75 @@ fn compute_huffman_codeword_lengths<T: IndexMut<usize, Output = u64>>(
 	w
 }
 
+/// Computes the lengths of an optimal set of codewords for the specified frequencies,
+/// subject to none of them being longer than `maximum_length`, and stores them in
+/// `codeword_lengths`. Entries whose frequency is zero are assigned a length of zero.
+///
+/// This uses the package-merge algorithm, described in section 5 of the Moffat article,
+/// so it takes more time and memory than [`compute_huffman_codeword_lengths`].
+///
+/// # Preconditions
+/// At least two frequencies are not zero, and there are at most `2^maximum_length` of them.
+pub(super) fn compute_limited_codeword_lengths(
+	frequencies: &[u64],
+	codeword_lengths: &mut [u64],
+	maximum_length: usize
+) {
+	let mut sorted_entries: Vec<_> = (0..frequencies.len())
+		.filter(|entry| frequencies[*entry] != 0)
+		.collect();
+	sorted_entries.sort_unstable_by_key(|entry| frequencies[*entry]);
+
+	// Each list has the entries and the packages of two consecutive items of the previous list,
+	// sorted by weight. Only whether each item is a package needs to be remembered afterwards
+	let mut lists = Vec::with_capacity(maximum_length);
+	let mut previous_weights = vec![];
+	for _ in 0..maximum_length {
+		let mut packages = previous_weights
+			.chunks_exact(2)
+			.map(|pair: &[u64]| pair[0].saturating_add(pair[1]))
+			.peekable();
+		let mut entries = sorted_entries
+			.iter()
+			.map(|entry| frequencies[*entry])
+			.peekable();
+
+		let mut weights = vec![];
+		let mut is_package = vec![];
+		while let Some(next_is_package) = match (packages.peek(), entries.peek()) {
+			(Some(package), Some(entry)) => Some(package < entry),
+			(Some(_), None) => Some(true),
+			(None, Some(_)) => Some(false),
+			(None, None) => None
+		} {
+			weights.extend(if next_is_package {
+				packages.next()
+			} else {
+				entries.next()
+			});
+			is_package.push(next_is_package);
+		}
+
+		previous_weights = weights;
+		lists.push(is_package);
+	}
+
+	// The codewords of the entries that are taken from a list, or are part of the packages
+	// that are, get one bit longer
+	codeword_lengths.fill(0);
+	let mut items_to_take = 2 * sorted_entries.len() - 2;
+	for is_package in lists.iter().rev() {
+		let package_count = is_package[..items_to_take]
+			.iter()
+			.filter(|is_package| **is_package)
+			.count();
+		for entry in &sorted_entries[..items_to_take - package_count] {
+			codeword_lengths[*entry] += 1;
+		}
+		items_to_take = 2 * package_count;
+	}
+}
+
 #[cfg(test)]
 mod test {
 	use super::*;
diff --git a/packages/optivorbis/src/vorbis/codebook/mod.rs b/packages/optivorbis/src/vorbis/codebook/mod.rs
index 304ae98..21f898f 100644
--- a/packages/optivorbis/src/vorbis/codebook/mod.rs
+++ b/packages/optivorbis/src/vorbis/codebook/mod.rs
@@ -6,7 +6,9 @@ use std::{
 	io::{ErrorKind, Read}
 };
 
-use huffman_codeword_lengths::VorbisCodebookNumberFrequenciesDecorator;
+use huffman_codeword_lengths::{
+	VorbisCodebookNumberFrequenciesDecorator, compute_limited_codeword_lengths
+};
 use huffman_tree::{
 	TryFromCodewordLengthsListError, VorbisHuffmanTree, VorbisHuffmanTreeWalkerError
 };
@@ -171,23 +173,18 @@ impl VorbisCodebook {
 			self.recording_decode_frequencies = false;
 
 			let frequencies_or_lengths = self.entry_decode_frequencies_or_lengths.get_mut();
-			let mut frequencies = frequencies_or_lengths.clone();
-
-			loop {
-				VorbisCodebookNumberFrequenciesDecorator::new(frequencies_or_lengths.as_mut_slice())
-					.into_huffman_codeword_lengths();
+			let frequencies = frequencies_or_lengths.clone();
 
-				// Vorbis codewords are up to 32 bits long, but Fibonacci-like frequencies may yield
-				// longer ones. In that very rare case, smooth out the frequencies until they don't
-				if frequencies_or_lengths.iter().all(|length| *length <= 32) {
-					break frequencies_or_lengths;
-				}
+			VorbisCodebookNumberFrequenciesDecorator::new(frequencies_or_lengths.as_mut_slice())
+				.into_huffman_codeword_lengths();
 
-				for frequency in &mut frequencies {
-					*frequency = frequency.div_ceil(2);
-				}
-				frequencies_or_lengths.copy_from_slice(&frequencies);
+			// Vorbis codewords are up to 32 bits long, but Fibonacci-like frequencies may yield
+			// longer ones. In that very rare case, use the slower algorithm that can limit them
+			if frequencies_or_lengths.iter().any(|length| *length > 32) {
+				compute_limited_codeword_lengths(&frequencies, frequencies_or_lengths, 32);
 			}
+
+			frequencies_or_lengths
 		} else {
 			self.entry_decode_frequencies_or_lengths.get_mut()
 		}
-- 
2.43.0


From c14ec7709ba02f28cf411f7cb8a1322c3382983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:39 +0000
Subject: [PATCH 14/14] fix: the command line tool panicked when given
 arguments that are not UTF-8

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index fa16ae6..e68e328 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -110,7 +110,7 @@ fn run() -> Result<(), Cow<'static, str>> {
 		)
 		.parsing_style(ParsingStyle::StopAtFirstFree);
 
-	match options.parse(env::args().skip(1)) {
+	match options.parse(env::args_os().skip(1)) {
 		Ok(matches) => {
 			if matches.opt_present("h") {
 				println!("{}", header());
-- 
2.43.0

