From 4b6cd300735ba9495e65ff26e86601819be4c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 01/83] fix: an Array slice may reach the end of its body, or
 be empty

---
 include/array.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index f7ea4a9..f0a50aa 100644
--- a/include/array.h
+++ b/include/array.h
@@ -444,8 +444,7 @@ public:
 	ArrayR(Body* body, Index offs, Index len)
 			: body(body), offset(offs), num_elements(len)
 			{
-				assert(offs < body->length());
-				assert(offs+len < body->length());
+				assert(offs+len <= (body ? body->length() : 0));
 			}
 protected:
 	bool		isStatic() const;
-- 
2.43.0


From 19462ad1678bf60f5a4598855c3738464014b767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 02/83] fix: Array insert and remove positions are relative to
 the slice, not its body

---
 include/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array.h b/include/array.h
index f0a50aa..a124034 100644
--- a/include/array.h
+++ b/include/array.h
@@ -210,7 +210,7 @@ public:
 				}
 
 				Unshare();
-				body->remove(at, len);
+				body->remove(offset+at, len);
 				num_elements -= len;
 				return *this;
 			}
@@ -231,7 +231,7 @@ public:
 	ArrayR&		operator+=(const Element& addend)
 			{
 				Unshare(1);
-				body->insert(num_elements, &addend, 1);
+				body->insert(offset+num_elements, &addend, 1);
 				num_elements++;
 				return *this;
 			}
@@ -244,7 +244,7 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
+			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if ((Body*)body == (Body*)addend.body)	// From the same body
@@ -269,7 +269,7 @@ public:
 				}
 
 				Unshare(addend.length());
-				body->insert(pos, addend.asElements(), addend.length());
+				body->insert(offset+pos, addend.asElements(), addend.length());
 				num_elements += addend.length();
 				return *this;
 			}
-- 
2.43.0


From 863303762fe0363cdeb39d9608f7b10eafb3a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 03/83] fix: inserting an Array or one of its elements into
 itself used freed memory

---
 include/array.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/array.h b/include/array.h
index a124034..303512a 100644
--- a/include/array.h
+++ b/include/array.h
@@ -230,8 +230,9 @@ public:
 			}
 	ArrayR&		operator+=(const Element& addend)
 			{
+				const Element	e = addend;	// The addend might be one of our own elements
 				Unshare(1);
-				body->insert(offset+num_elements, &addend, 1);
+				body->insert(offset+num_elements, &e, 1);
 				num_elements++;
 				return *this;
 			}
@@ -243,8 +244,14 @@ public:
 			{ assert(num_elements > 0); return elem_mut(num_elements-1); }
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
-	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
+	ArrayR&		unshift(const Element& addend)	// Insert an element at the start
+			{
+				const Element	e = addend;	// The addend might be one of our own elements
+				Unshare(1);
+				body->insert(offset, &e, 1);
+				num_elements++;
+				return *this;
+			}
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if ((Body*)body == (Body*)addend.body)	// From the same body
@@ -268,9 +275,10 @@ public:
 					}
 				}
 
-				Unshare(addend.length());
-				body->insert(offset+pos, addend.asElements(), addend.length());
-				num_elements += addend.length();
+				const ArrayR	source(addend);	// The addend might be this array, don't insert a body into itself
+				Unshare(source.length());
+				body->insert(offset+pos, source.asElements(), source.length());
+				num_elements += source.length();
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-- 
2.43.0


From 733d8e6892175a005738ae60ce98c33ce3adaf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 04/83] fix: an Array compares greater than its own prefix

---
 include/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array.h b/include/array.h
index 303512a..70c4897 100644
--- a/include/array.h
+++ b/include/array.h
@@ -99,6 +99,8 @@ public:
 				}
 				if (i < comparand.length())
 					return -1;
+				if (i < num_elements)
+					return 1;
 				return 0;
 			}
 	inline bool	operator==(const ArrayR& comparand) const {
-- 
2.43.0


From 0266b969f5329fc491a0a7e8e43b01d342cdd2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 05/83] fix: Array searches and functional methods dereferenced
 a null body when empty

---
 include/array.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/array.h b/include/array.h
index 70c4897..bb9a6db 100644
--- a/include/array.h
+++ b/include/array.h
@@ -141,7 +141,7 @@ public:
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (*bp == e)
@@ -150,7 +150,7 @@ public:
 			}
 	int		rfind(const Element& e, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
 					if (*bp == e)
@@ -292,7 +292,7 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
@@ -306,7 +306,7 @@ public:
 			{
 				if (num_elements == 0)
 					return *this;				// body may be null
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	bp = dp;			// Output pointer
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* sp = dp; sp < ep; sp++, bp++)
@@ -330,7 +330,7 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	const Self&	each(std::function<void(const Element& e)> operation) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					operation(*bp);
@@ -339,7 +339,7 @@ public:
 			}
 	bool		all(std::function<bool(const Element& e)> condition) const	// Do all elements satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (!condition(*bp))
@@ -348,7 +348,7 @@ public:
 			}
 	bool		any(std::function<bool(const Element& e)> condition) const	// Does any element satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -357,7 +357,7 @@ public:
 			}
 	bool		one(std::function<bool(const Element& e)> condition) const	// Exactly one element satisfies the condition
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				bool		found = false;
 				for (const Element* bp = dp; bp < ep; bp++)
@@ -373,7 +373,7 @@ public:
 	// Linear search for an element using a match function
 	int		find(std::function<bool(const Element& e)> match, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (match(*bp))
@@ -382,7 +382,7 @@ public:
 			}
 	int		rfind(std::function<bool(const Element& e)> match, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
 					if (match(*bp))
@@ -394,7 +394,7 @@ public:
 	Self		select(std::function<bool(const Element& e)> condition) const
 			{
 				Self	selected;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -405,7 +405,7 @@ public:
 			{
 				Result		output((E2*)0, 0, num_elements);// Preallocate correct size
 
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					output.append(map1(*bp));
@@ -414,7 +414,7 @@ public:
 	template<typename J> J	inject(const J& start, std::function<J(J&, const Element& e)> injection) const
 			{
 				J	accumulator = start;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					accumulator = injection(accumulator, *bp);
@@ -422,7 +422,7 @@ public:
 			}
 	int		bsearch(std::function<int(const Element& e)> comparator) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				Index		l = 0;
 				Index		r = num_elements;
 				while (r > l)
-- 
2.43.0


From 21d716eb727698f7ddceb9e24b09e04d3637d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 06/83] fix: Array rfind never looked at the first element, nor
 checked its start position

---
 include/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array.h b/include/array.h
index bb9a6db..4125dbd 100644
--- a/include/array.h
+++ b/include/array.h
@@ -152,8 +152,8 @@ public:
 			{
 				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (*bp == e)
+				for (const Element* bp = before < 0 || before > ep-dp ? ep : dp+before; bp > dp; )
+					if (*--bp == e)
 						return bp-dp;
 				return -1;				// Not found
 			}
@@ -384,8 +384,8 @@ public:
 			{
 				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (match(*bp))
+				for (const Element* bp = before < 0 || before > ep-dp ? ep : dp+before; bp > dp; )
+					if (match(*--bp))
 						return bp-dp;
 				return -1;				// Not found
 			}
-- 
2.43.0


From 99cb2827d979b071dd6848634bb6cc6ee11bb564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 07/83] fix: Array bsearch looked past the end and skipped
 elements

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 4125dbd..7466964 100644
--- a/include/array.h
+++ b/include/array.h
@@ -427,12 +427,12 @@ public:
 				Index		r = num_elements;
 				while (r > l)
 				{
-					Index	m = l+(r-l+1)/2;	// Care with unsigned overflow
+					Index	m = l+(r-l)/2;		// Care with unsigned overflow
 					int	c = comparator(dp[m]);
 					if (c == 0)
 						return m;
 					if (c > 0)
-						r = m-1;		// The middle element was too great
+						r = m;			// The middle element was too great
 					else
 						l = m+1;		// The middle element was too small
 				}
-- 
2.43.0


From 9a5c8a03031bf69f54d5a04921c259b76e816e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 08/83] fix: Array delete_if didn't delete anything

---
 include/array.h | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/include/array.h b/include/array.h
index 7466964..98d83c2 100644
--- a/include/array.h
+++ b/include/array.h
@@ -306,24 +306,16 @@ public:
 			{
 				if (num_elements == 0)
 					return *this;				// body may be null
-				const Element*	dp = asElements();		// Start of our slice
-				const Element*	bp = dp;			// Output pointer
-				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* sp = dp; sp < ep; sp++, bp++)
-					if (condition(*sp))
-					{
-						if (isShared())
-						{
-							Unshare();	// This invalidates the pointers; reset them
-							dp = body->data() + (dp-sp);
-							bp = body->data() + (bp-sp);
-							ep = body->data() + (ep-sp);
-							// sp = body->data();	// Unnecessary, we won't Unshare twice
-						}
-						bp--;	// Skip this element in the output
-					}
-				if (bp < dp)
-					num_elements -= (dp-bp);
+				Index		kept = 0;			// Output position
+				for (Index i = 0; i < num_elements; i++)
+				{
+					if (condition(asElements()[i]))
+						continue;			// Skip this element in the output
+					if (kept < i)
+						set(kept, elem(i));		// Causes Unshare
+					kept++;
+				}
+				num_elements = kept;
 				return *this;
 			}
 
-- 
2.43.0


From 22b49d3d0ca9c7283b4fc2575b558f7a0bee9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 09/83] fix: Array reverse, elem_ref, last_ref, append and +=
 (of an array) could not be instantiated

---
 include/array.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/array.h b/include/array.h
index 98d83c2..b591bf5 100644
--- a/include/array.h
+++ b/include/array.h
@@ -77,11 +77,12 @@ public:
 			  Unshare();
 			  return body->data()[offset+elem_num]; }
 	const Element&	elem_ref(int elem_num) const
-			{ return elem_mut(elem_num); }
+			{ assert(elem_num >= 0 && elem_num < num_elements && body);
+			  return body->data()[offset+elem_num]; }
 	const Element*	asElements() const
 			{ return body ? body->data()+offset : 0; }
 
-			operator const Body&() const { return static_cast<const Body&>(body); }
+			operator const Body&() const { return *body; }
 	const Body*	operator->() const { return body; }
 	const Body&	operator*() const { return *body; }
 
@@ -284,7 +285,7 @@ public:
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-			{ return insert(num_elements, addend.asElements(), addend.length()); }
+			{ return insert(num_elements, addend); }
 	ArrayR&		append(const Element& addend)	// Append an element to the end
 			{ return push(addend); }
 	ArrayR&		reverse()
@@ -292,8 +293,8 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = asElements();		// Start of our slice
-				const Element*	ep = dp+num_elements;		// End of our slice
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
 					Element	e = *--ep;
@@ -449,7 +450,8 @@ public:
 				assert(offs+len <= (body ? body->length() : 0));
 			}
 protected:
-	bool		isStatic() const;
+	bool		isStatic() const
+			{ return body && body->isStatic(); }
 
 private:
 	Ref<Body>	body;		// The storage structure for the elements
-- 
2.43.0


From 0f9c72a7dbb469344ffb1557a4e10a0061ebc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 10/83] fix: Array remove and shorter did not reject lengths
 that exceed the slice

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index b591bf5..f39ca44 100644
--- a/include/array.h
+++ b/include/array.h
@@ -137,7 +137,7 @@ public:
 	Self		tail(Index num_elem) const
 			{ return slice(length()-num_elem, num_elem); }
 	Self		shorter(Index num_elem) const	// all elements up to tail
-			{ return slice(0, length()-num_elem); }
+			{ return num_elem >= length() ? Self() : slice(0, length()-num_elem); }
 
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
@@ -196,7 +196,7 @@ public:
 			{
 				if (len == -1)
 					len = num_elements-at;
-				assert(num_elements-len >= at);		// Care with unsigned arithmetic
+				assert(at <= num_elements && len >= 0 && len <= num_elements-at);	// Care with unsigned arithmetic
 				if (at == num_elements || len == 0)
 					return *this;
 
-- 
2.43.0


From 93673c45c0fdf5fdd08b857df25b9c9cc6d07cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 11/83] fix: mutating an unshared StrVal substring changed the
 wrong part of its body

---
 include/strval.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index fadc15e..7708a05 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -806,10 +806,9 @@ private:
 
 	void		Unshare()
 			{
-				// A substring on Unallocated memory which is the last remaining ref
-				// cannot be terminated correctly, so must be copied even if unshared
-				bool	must_copy_static = body->isStatic() && offset+length() < body->numChars();
-				if (must_copy_static || body->isShared())
+				// The body's mutators work on the whole body, so a substring must be copied even if unshared
+				bool	is_substring = offset > 0 || offset+length() < body->numChars();
+				if (is_substring || body->isShared())
 					copyBody();
 			}
 
-- 
2.43.0


From 3431d797e936540c784981f231ba56d474c66992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 12/83] fix: a StrVal bookmark outlived the text it described

---
 include/strval.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 7708a05..f12cb14 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -700,7 +700,7 @@ public:
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
-				// REVISIT: update or nullify the bookmark if after insertion point
+				mark = Bookmark();		// It might be after the insertion point
 				num_chars += addend.length();
 				return *this;
 			}
@@ -716,6 +716,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toLower();
 				num_chars = body->numChars();
+				mark = Bookmark();		// Characters may have changed their encoded size
 				return *this;
 			}
 	StrValI&	toUpper()
@@ -723,6 +724,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toUpper();
 				num_chars = body->numChars();
+				mark = Bookmark();		// Characters may have changed their encoded size
 				return *this;
 			}
 	StrValI&	transform(const std::function<StrValI(const char*& cp, const char* ep)> xform, int after = -1);
@@ -732,6 +734,7 @@ public:
 				Unshare();
 				body->toJSON();
 				num_chars = body->numChars();
+				mark = Bookmark();		// Characters may have changed their encoded size
 				return *this;
 			}
 
@@ -799,8 +802,10 @@ private:
 				Index		prefix_bytes = cp - body->nthChar(0, mark); // How many leading bytes of the body we are eliding
 
 				body = new Body(cp, body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
-				mark.char_num = savemark.char_num - offset;	// Restore the bookmark
-				mark.byte_num = savemark.byte_num - prefix_bytes;
+				if (savemark.char_num >= offset)
+					mark = Bookmark(savemark.char_num-offset, savemark.byte_num-prefix_bytes); // Restore the bookmark
+				else
+					mark = Bookmark();	// The bookmark was in the elided prefix
 				offset = 0;
 			}
 
-- 
2.43.0


From c8a39185af492e05d118431fdb2d58df46e4d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 13/83] fix: inserting or appending a StrVal to itself used
 freed memory

---
 include/strval.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index f12cb14..120552f 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -694,6 +694,9 @@ public:
 					return *this;
 				}
 
+				if (this == &addend)
+					return insert(pos, StrValI(addend));	// Don't insert a body into itself
+
 				Unshare();
 
 				// REVISIT: Handle StrRawBinary data
-- 
2.43.0


From 0c0c45faa52c3a1564e26eb8fc4a60fcec200b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 14/83] fix: StrVal comparison read beyond the end of a shorter
 comparand

---
 include/strval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 120552f..d7538ad 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -868,10 +868,14 @@ int StrValI<Index>::compare(const StrValI& comparand, CompareStyle style) const
 	switch (style)
 	{
 	case CompareRaw:
-		cmp = memcmp(nthChar(0), comparand.nthChar(0), numBytes());
+	{
+		Index	bytes = numBytes();
+		Index	comparand_bytes = comparand.numBytes();
+		cmp = memcmp(nthChar(0), comparand.nthChar(0), bytes < comparand_bytes ? bytes : comparand_bytes);
 		if (cmp == 0)
-			cmp = numBytes() - comparand.numBytes();
+			cmp = bytes - comparand_bytes;
 		return cmp;
+	}
 
 	case CompareCI:
 		assert(!"REVISIT: Case-independent comparison is not implemented");
-- 
2.43.0


From fdb776ada9890b723b2c81a4b7785504da4d65cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 15/83] fix: StrVal searches looked at text outside the string

---
 include/strval.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index d7538ad..b605f84 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -496,7 +496,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -507,7 +507,7 @@ public:
 			}
 	int		rfind(UCS4 ch, int before = -1) const
 			{
-				Index		n = (before == -1 ? length() : before)-1; // First Index we'll look at
+				Index		n = (before == -1 || before > length() ? length() : before)-1; // First Index we'll look at
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
@@ -522,14 +522,18 @@ public:
 	// Search for substrings:
 	int		find(const StrValI& s1, int after = -1) const
 			{
+				if (s1.length() > length())
+					return -1;			// We're not long enough
 				Index		n = after+1;		// First Index we'll look at
 				Index		last_start = length()-s1.length();	// Last possible start position
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
+				const char*	ep = nthChar(length());	// Don't look past here
 				const char*	up;
 				while (n <= last_start && (up = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(up, s1start, s1.numBytes()) == 0)
+					if (s1bytes <= ep-up && memcmp(up, s1start, s1bytes) == 0)
 						return n;
 					n++;
 				}
@@ -537,16 +541,20 @@ public:
 			}
 	int		rfind(const StrValI& s1, int before = -1) const
 			{
+				if (s1.length() > length())
+					return -1;			// We're not long enough
 				Index		n = before == -1 ? length()-s1.length() : before-1;	// First Index we'll look at
 				if (n > length()-s1.length())
 					n = length()-s1.length();
 
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
+				const char*	ep = nthChar(length());	// Don't look past here
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(bp, s1start, s1.numBytes()) == 0)
+					if (s1bytes <= ep-bp && memcmp(bp, s1start, s1bytes) == 0)
 						return n;
 					n--;
 				}
@@ -558,7 +566,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -571,7 +579,7 @@ public:
 			}
 	int		rfindAny(const StrValI& s1, int before = -1) const
 			{
-				Index		n = before == -1 ? length()-1 : before-1;	// First Index we'll look at
+				Index		n = (before == -1 || before > length() ? length() : before)-1; // First Index we'll look at
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
@@ -589,7 +597,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -604,7 +612,7 @@ public:
 			}
 	int		rfindNot(const StrValI& s1, int before = -1) const
 			{
-				Index		n = (before == -1 ? length() : before)-1;	// First Index we'll look at
+				Index		n = (before == -1 || before > length() ? length() : before)-1;	// First Index we'll look at
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
-- 
2.43.0


From 441d6e275173e742025666684033cf9d0478adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 16/83] fix: storing a character in raw binary text stored it
 twice

---
 include/strval.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index b605f84..e987afe 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -275,7 +275,8 @@ protected:
 			{
 				if (isRawBinary())
 					*cp++ = ch;	// REVISIT: Panic on oversized char
-				UTF8Put(cp, ch);
+				else
+					UTF8Put(cp, ch);
 			}
 };
 
-- 
2.43.0


From e03e3c4ec8d165bb2012e65d4f77ee4faa62c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 17/83] fix: StrVal shorter() by one more than its length
 returned the whole string

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index e987afe..a440b79 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -489,7 +489,7 @@ public:
 	StrValI		tail(Index chars) const
 			{ return substr(length()-chars, chars); }
 	StrValI		shorter(Index chars) const	// all chars up to tail
-			{ return substr(0, length()-chars); }
+			{ return chars >= length() ? null : substr(0, length()-chars); }
 //	StrValI&	remove(Index at, int len = -1);	// Delete a substring from the middle
 
 	// Search for a character:
-- 
2.43.0


From 46f079a797e885058eb85238b7e0cf35820697fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 18/83] fix: copying length-terminated data into a StrVal read
 one byte too many

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index a440b79..dfe824c 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -78,13 +78,13 @@ public:
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
 	StrBodyI(const char* data, StrDataType dt, Index length = 0, Index allocate = 0)
-			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+1, allocate)
+			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+(dt == StrStatic), allocate)
 			, num_chars(0)
 			{
 				// REVISIT: Need a Panic() function when a string passes the allowed maximum size
 				// assert(num_elements < StrValIndexRawBinaryMarker);
-				if (dt != StrStatic && length != 0)
-					start[num_elements-1] = '\0';	// Perhaps we didn't copy a NUL, so add one
+				if (dt != StrStatic)
+					Body::insert(num_elements, "", 1);	// The data might not include a NUL, so add one
 				if (dt == StrRawBinary)
 					num_chars = StrValIndexRawBinaryMarker;	// one byte = one char, don't count them
 			}
-- 
2.43.0


From 8795cfcb2fc22dca604d6c4e9daaa0f574f12f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 19/83] fix: JSON for NUL, supplementary and illegal characters
 was wrong or aborted

---
 include/strval.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index dfe824c..371d18e 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1139,8 +1139,6 @@ StrBodyI<Index>::toJSON()
 			char*	op = one_char;		// Pack it into our local buffer
 			switch (ch)
 			{
-			case '\0':	// Null Byte
-				*op++ = '\\'; *op++ = '0'; break;
 			case '\"':	// Double quote
 				*op++ = '\\'; *op++ = '\"'; break;
 			case '\\':	// Backslash character
@@ -1183,6 +1181,8 @@ StrBodyI<Index>::toJSON()
 						*op++ = hex[(u>>4)&0xF];
 						*op++ = hex[u&0xF];
 					};
+				if (!UCS4IsUnicode(ch))
+					ch = UCS4_REPLACEMENT;	// Illegal UTF-8, or not representable in JSON
 				if (ch <= 0xFFFF)
 				{		// Character fits in one \u escape, do that
 					u4(ch, op);
@@ -1190,10 +1190,9 @@ StrBodyI<Index>::toJSON()
 				}
 
 				// We need two surrogates for Emoji's etc.
-				assert(ch <= 0xFFFFF);
-				// Surrogate pair: D800 to DBFF, Low surrogate: D800 to DBFF
-				u4(0xD800+((ch>>10)&0x3FF), op);
-				u4(0xDC00+(ch&0x3FF), op);
+				// Surrogate pair: D800 to DBFF, Low surrogate: DC00 to DFFF
+				u4(UCS4HighSurrogate(ch), op);
+				u4(UCS4LowSurrogate(ch), op);
 				break;
 			}
 			*op = '\0';
-- 
2.43.0


From 1fc54f04a497c36256b06f77373b1d8fefbac04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 20/83] fix: StrVal asInt32 missed overflows, and radix
 prefixes with an explicit radix

---
 include/strval.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 371d18e..a2fc953 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -990,7 +990,6 @@ int32_t StrValI<Index>::asInt32(
 	int		d;			// current digit value
 	bool		negative = false;	// Was a '-' sign seen?
 	unsigned long	l = 0;			// Number being converted
-	unsigned long	last;
 	unsigned long	max;
 
 	if (err_return)
@@ -1023,7 +1022,7 @@ int32_t StrValI<Index>::asInt32(
 			goto no_digits;
 	}
 
-	if (radix == 0)		// Auto-detect radix (octal, decimal, binary)
+	if (radix == 0 || radix == 2 || radix == 16)	// Auto-detect radix (octal, decimal, binary), or skip its prefix
 	{
 		if (UCS4Digit(ch) == 0 && i+1 < len)
 		{
@@ -1054,7 +1053,7 @@ int32_t StrValI<Index>::asInt32(
 				break;
 			}
 		}
-		else
+		else if (radix == 0)
 			radix = 10;
 	}
 
@@ -1062,13 +1061,12 @@ int32_t StrValI<Index>::asInt32(
 	if ((d = Digit(ch, radix)) < 0)
 		goto not_number;
 
-	max = (ULONG_MAX-1)/radix + 1;
+	max = ULONG_MAX/radix;
 	// Convert digits
 	do {
 		i++;			// We're definitely using this char
-		last = l;
 		if (l > max		// Detect *unsigned* long overflow
-		 || (l = l*radix + d) < last)
+		 || (l *= radix) > ULONG_MAX-d)
 		{
 			// Overflowed unsigned long!
 			if (err_return)
@@ -1077,6 +1075,7 @@ int32_t StrValI<Index>::asInt32(
 				*scanned = i;
 			return 0;
 		}
+		l += d;
 	} while (i < len && (d = Digit((*this)[i], radix)) >= 0);
 
 	if (err_return)
@@ -1092,7 +1091,7 @@ int32_t StrValI<Index>::asInt32(
 	if (scanned)
 		*scanned = i;
 
-	if (l > (unsigned long)LONG_MAX+(negative ? 1 : 0))
+	if (l > (unsigned long)INT32_MAX+(negative ? 1 : 0))
 	{
 		if (err_return)
 			*err_return = ErrNum(STRERR_SET, STRERR_NUMBER_OVERFLOW);
-- 
2.43.0


From b47fbfc57d77cb97a2af235b32c105d6e0c9a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 21/83] fix: CowMap put erased the key from other maps that
 share the body

---
 include/cowmap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 7e46a13..c8f7224 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -75,10 +75,10 @@ public:
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
-				auto search = find(k);
-				if (search != end())
-					body->erase(k);
-				insert(k, v);
+				Unshare();
+				auto result = body->insert(BaseVP(k, v));
+				if (!result.second)		// The key is already present
+					result.first->second = v;
 				return k;
 			}
 
-- 
2.43.0


From 781fd018515303d93651d0e77926b87e2d09e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 22/83] fix: CowMap functional methods could not be
 instantiated, nor lookups used on a const map

---
 include/cowmap.h | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index c8f7224..ef1e60b 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -47,19 +47,19 @@ public:
 	CowMap& operator=(const CowMap& s1)	// Assignment operator
 			{ body = s1.body; return *this; }
 
-	Value	operator[](const Key& k)
+	Value	operator[](const Key& k) const
 			{
 				auto	it = (*body).find(k);
 				if (it != (*body).end())
 					return it->second;
 				return Value();
 			}
-	bool	contains(const Key& k)
+	bool	contains(const Key& k) const
 			{
 				auto search = find(k);
 				return search != end();
 			}
-	Iter	find(const Key& k) { return body->find(k); }
+	Iter	find(const Key& k) const { return body->find(k); }
 	Iter	begin() const
 			{ return body->begin(); }
 	Iter	end() const
@@ -85,35 +85,35 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	Array<Key>	keys() const
 			{
-				Array<K>	all_keys((Value*)0, 0, size());
+				Array<K>	all_keys((Key*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_keys.append(it.first);
+					all_keys.append(it->first);
 				return all_keys;
 			}
 	Array<Value>	values() const
 			{
 				Array<Value>	all_values((Value*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_values.append(it.second);
+					all_values.append(it->second);
 				return all_values;
 			}
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
 				for (Iter it = begin(); it != end(); it++)
-					operation(it.first, it.second);
+					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (!condition(it.first, it.second))
+					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 						return true;
 				return false;
 			}
@@ -121,7 +121,7 @@ public:
 			{
 				bool		found = false;
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 					{
 						if (found)
 							return false;
@@ -135,8 +135,8 @@ public:
 				CowMap	selected;
 
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
-						selected.put(it.first, it.second);
+					if (condition(it->first, it->second))
+						selected.put(it->first, it->second);
 				return selected;
 			}
 	template<typename V2 = V, typename K2 = K>
@@ -144,7 +144,10 @@ public:
 			{
 				CowMap<V2, K2>	output;
 				for (Iter it = begin(); it != end(); it++)
-					output.append(map1(it.first, it.second));
+				{
+					std::pair<K2, V2>	mapped = map1(it->first, it->second);
+					output.put(mapped.first, mapped.second);
+				}
 				return output;
 			}
 	template<typename J>
@@ -152,7 +155,7 @@ public:
 			{
 				J	accumulator = start;
 				for (Iter it = begin(); it != end(); it++)
-					accumulator = injection(accumulator, it.first, it.second);
+					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
 
-- 
2.43.0


From f55f800e1226de622212b0ff893ef8ede90ffb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 23/83] fix: Variant compact JSON omitted the space before a
 closing bracket

---
 include/variant.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 7f1065f..53d39bf 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -169,12 +169,14 @@ public:
 	{
 		int		next_indent = indent;
 		StrVal		sep;			// Separator string between array or map items
+		StrVal		close;			// What comes before the closing bracket
 		switch (indent)
 		{
 		case -2:	sep = ","; break;	// Tight
-		case -1:	sep = ", "; break;	// Compact
+		case -1:	sep = ", "; close = " "; break;	// Compact
 		default:	next_indent = indent+1;	// Indented
 				sep = StrVal(",\n")+StrVal("  ")*next_indent;
+				close = sep.substr(1).shorter(2);
 				break;
 		}
 
@@ -208,7 +210,7 @@ public:
 			for (int i = 0; i < u.str_arr.length(); i++)
 				str += (i > 0 ? sep : StrVal())
 				    + Variant(u.str_arr[i]).as_json(next_indent);
-			return str+sep.substr(1).shorter(2)+"]";
+			return str+close+"]";
 			}
 
 		case VarArray:
@@ -217,7 +219,7 @@ public:
 			for (int i = 0; i < u.var_arr.length(); i++)
 				str += (i > 0 ? sep : StrVal())
 				    + u.var_arr[i].as_json(next_indent);
-			return str+sep.substr(1).shorter(2)+"]";
+			return str+close+"]";
 			}
 
 		case StrVarMap:
@@ -230,7 +232,7 @@ public:
 				    + (indent==-2 ? ":" : ": ")
 				    + (*iter).second.as_json(next_indent);
 			}
-			return str+sep.substr(1).shorter(2)+"}";
+			return str+close+"}";
 			}
 		}
 	}
-- 
2.43.0


From 3ac9cfa4f0d1e52f5698c35e72613f7ea5bd2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 24/83] fix: Variant coercion of a string to a number failed on
 success, and leaked the string

---
 include/variant.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 53d39bf..31f94ee 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -294,8 +294,9 @@ protected:
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
 					u.i = (int)u.ll; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Discard the string
 					u.i = i32;
 					_type = new_type;
 					return;
@@ -315,8 +316,9 @@ protected:
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
 					u.l = (long)u.ll; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Discard the string
 					u.l = i32;
 					_type = new_type;
 					return;
@@ -337,6 +339,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Discard the string
 					u.ll = i32;
 					_type = new_type;
 					return;
-- 
2.43.0


From 5dd276564bbfeca07a23eb99cc5673d921717546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 25/83] fix: Variant coercion between integer types did not
 change the type

---
 include/variant.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 31f94ee..6a69c78 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -290,9 +290,9 @@ protected:
 			{
 			case Integer:	return; // Already handled
 			case Long:	if (u.l != (int)u.l) break;	// Fail if it would truncate
-					u.i = (int)u.l; return;
+					u.i = (int)u.l; _type = new_type; return;
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
-					u.i = (int)u.ll; return;
+					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (e)				// Some error in conversion
 						break;
@@ -311,10 +311,10 @@ protected:
 		case Long:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
+			case Integer:	u.l = u.i; _type = new_type; return;
 			case Long:	return; // Already handled
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
-					u.l = (long)u.ll; return;
+					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
@@ -333,8 +333,8 @@ protected:
 		case LongLong:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
-			case Long:	u.ll = u.l; return;
+			case Integer:	u.ll = u.i; _type = new_type; return;
+			case Long:	u.ll = u.l; _type = new_type; return;
 			case LongLong:	return; // Already handled
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
-- 
2.43.0


From 7e44f08ee404ca460e0a078a9282649936ba0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:10 +0000
Subject: [PATCH 26/83] fix: error flag bits overlapped the message set number

---
 include/error.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/error.h b/include/error.h
index dc39a73..27fbbad 100644
--- a/include/error.h
+++ b/include/error.h
@@ -38,8 +38,8 @@
 class ErrNum
 {
 public:
-	static const int32_t	ERR_FLAG = 0x8000000;	// Sign bit is used to indicate an error, allowing quick checks
-	static const int32_t	ERR_CUST = 0x4000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
+	static const int32_t	ERR_FLAG = (int32_t)0x80000000;	// Sign bit is used to indicate an error, allowing quick checks
+	static const int32_t	ERR_CUST = 0x40000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
 
 	constexpr ErrNum()
 			: errnum(0) {}
-- 
2.43.0


From 9c012c775164d59d5ee9be8fb34fa2de57e3b786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 27/83] fix: formatting ignored argument numbers and failed to
 skip a * size or precision

---
 include/strformat.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/strformat.h b/include/strformat.h
index fb8bde5..ec2e641 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -21,19 +21,23 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 			continue;
 		}
 		c = f[++i];	// Skip the %
+		numbered_arg = 0;
 
 		if (i+2 < m && (d = Digit(c, 10)) > 0 && f[i+1] == '$')
 		{		// Extract the argument sequence digit
 			numbered_arg = d;
-			i += 2;
-			c = f[++i];	// Skip ASD
+			i++;		// Skip the digit
+			c = f[++i];	// Skip the $
 		}
 
 		// Get the size
 		size = 0;
 		leading_zeroes = false;
 		if (c == '*')
+		{
 			size = -1;
+			c = f[++i];	// Skip the *
+		}
 		else if ((d = Digit(c, 10)) >= 0)
 		{
 			if (d == 0)
@@ -49,7 +53,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 			c = f[++i];
 			if (c == '*')
+			{
 				prec = -1;
+				c = f[++i];	// Skip the *
+			}
 			else if ((d = Digit(c, 10)) >= 0)
 			{
 				prec = d;
@@ -63,6 +70,9 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		if (prec == -1)
 			prec = args[a++].as_int();
 
+		if (numbered_arg > 0)
+			a = numbered_arg-1;
+
 		// Get the conversion character
 		switch (c)
 		{
-- 
2.43.0


From 515863c4c68e90da9c62465f356ab99563324637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 28/83] fix: StrVal characters above 0x7F of raw binary text
 were sign-extended

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index a2fc953..af3a5ea 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -428,7 +428,7 @@ public:
 				const char*	cp = nthChar(charNum);
 				if (!cp)
 					return UCS4_NONE;
-				return body->isRawBinary() ? *cp : UTF8Get(cp);
+				return body->isRawBinary() ? (UCS4)(unsigned char)*cp : UTF8Get(cp);
 			}
 	const char*	asUTF8()	// Null terminated. Must unshare data if it's a substring with elided suffix
 			{
-- 
2.43.0


From f6103d12ec484a13276ab2377ff907d14bb8d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 29/83] fix: UTF8Len of a pointer read beyond the end of a
 truncated sequence

---
 include/char_encoding.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index bc3f613..a8d15b6 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -155,17 +155,16 @@ UTF8CorrectLen(UTF8 c)
 inline int
 UTF8Len(const UTF8* cp)	// REVISIT: Add an error callback pointer here?
 {
-	switch (int len = UTF8CorrectLen(*cp))
-	{	// This reminds me of Duff's Device :)
-	case 6: if (UTF8Is1st(cp[5])) goto illegal;
-		// Fall through
-	case 5: if (UTF8Is1st(cp[4])) goto illegal;
-		// Fall through
-	case 4: if (UTF8Is1st(cp[3])) goto illegal;
-		// Fall through
-	case 3: if (UTF8Is1st(cp[2])) goto illegal;
-		// Fall through
-	case 2: if (UTF8Is1st(cp[1])) goto illegal;
+	int	len = UTF8CorrectLen(*cp);
+	switch (len)
+	{
+	case 6:
+	case 5:
+	case 4:
+	case 3:
+	case 2:	// Check in order, so as never to look beyond a NUL
+		for (int i = 1; i < len; i++)
+			if (UTF8Is1st(cp[i])) goto illegal;
 		// Fall through
 	case 1:
 		return len;
-- 
2.43.0


From 490c9770596a06131ba294f9642c1be0d2ef4144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 30/83] fix: UTF8PutPaddedZero wrote the lead byte of the next
 greater length

---
 include/char_encoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index a8d15b6..a8c0276 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -261,7 +261,7 @@ UTF8PutPaddedZero(UTF8*& cp, int length)
 	assert(length >= 0 && length <= 6);
 	if (length > 1)
 	{
-		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
+		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length-1];	// Put lead byte with zero payload
 		while (--length > 0)
 			*cp++ = 0x80;				// Put trailing bytes with zero payload
 	}
-- 
2.43.0


From 97e0d986ef893b86df7e5de40a59b229a3354147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 31/83] fix: UTF8Backup stepped back over several characters
 after a truncated sequence

---
 include/char_encoding.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index a8c0276..08d4933 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -248,8 +248,8 @@ UTF8Backup(const UTF8* cp, const UTF8* limit = 0)
 	for (const UTF8* sp = cp-1; sp >= limit; --sp)	// Backup to the limit
 		if (UTF8Is1st(*sp))			// Found the start char
 		{
-			if (UTF8CorrectLen(*sp) >= cp-sp)
-				return sp;		// Legal prefix (at least) of a UTF8 sequence
+			if (UTF8CorrectLen(*sp) == cp-sp)
+				return sp;		// A complete UTF8 sequence
 			break;	// Illegal, backup 1 byte if this backup won't consume all bytes scanned
 		}
 	return cp-1;	// No start char (valid 1st byte) found
-- 
2.43.0


From 66b60a9763d5648fa685f8c1e0b76b85924a6b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 32/83] fix: moving a NulGuardedCharPtr backwards moved it
 forwards

---
 include/char_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 182c29c..db91256 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -71,7 +71,7 @@ public:
 	NulGuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance slowly
-				if (i < 0) s -= i;		// Or backup suddenly
+				if (i < 0) s += i;		// Or backup suddenly
 				data = s; return *this;
 			}
 	NulGuardedCharPtr	operator+(int i){ NulGuardedCharPtr t(*this); t += i; return t; }
-- 
2.43.0


From 0d34ed83664cc70c1d07dd25080cf3f2c2b221ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 33/83] fix: adding to a GuardedCharPtr moved it past the NUL

---
 include/char_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index db91256..96c1863 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -111,7 +111,7 @@ public:
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance
 				if (-i > s-origin)	// Or backup
 					s = origin;	// Either return as far as the origin
-				else
+				else if (i < 0)
 					s += i;		// or backup as far as requested
 				data = s; return *this;
 			}
-- 
2.43.0


From 72362060aec247335bc0d6eca9f5743c55f8787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 34/83] fix: guarded pointers could be decremented past their
 origin

---
 include/char_ptr.h | 17 +++++++++++++++++
 include/utf8_ptr.h | 20 ++++++++++++++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 96c1863..a7c61dc 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -115,6 +115,23 @@ public:
 					s += i;		// or backup as far as requested
 				data = s; return *this;
 			}
+	GuardedCharPtr	operator+(int i){ GuardedCharPtr t(*this); t += i; return t; }
+	GuardedCharPtr	operator-=(int i){ return *this += -i; }
+	GuardedCharPtr	operator-(int i){ GuardedCharPtr t(*this); t += -i; return t; }
+
+	// incr/decr functions:
+	GuardedCharPtr&	preincr()	{ return *this += 1; }
+	GuardedCharPtr	postincr()	{ GuardedCharPtr save(*this); ++*this; return save; }
+	GuardedCharPtr	postdecr()	{ GuardedCharPtr save(*this); --*this; return save; }
+	GuardedCharPtr&	predecr()	{ !at_bot() && data--; return *this; }
+
+	// incr/decr operators:
+	GuardedCharPtr	operator++(int)	{ return postincr(); }
+	GuardedCharPtr&	operator++()	{ return preincr(); }
+	GuardedCharPtr	operator--(int)	{ return postdecr(); }
+	GuardedCharPtr&	operator--()	{ return predecr(); }
+	long			operator-(GuardedCharPtr s)	{ return data-s.data; }
+	long			operator-(const char* s)	{ return data-s; }
 };
 
 #endif
diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 9aa9968..6c170fc 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -80,10 +80,26 @@ public:
 	GuardedUTF8Ptr&	operator+=(int i)
 			{	const UTF8* s = data;
 				while (i > 0 && *s != '\0') { UTF8Get(s); i--;}		// Advance
-				while (i < 0 && s > origin) { s = UTF8Backup(s); i++;}	// Or backup
+				while (i < 0 && s > origin) { s = UTF8Backup(s, origin); i++;}	// Or backup
 				data = (const UTF8*)s; return *this;
 			}
-	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data)); return *this; }
+	GuardedUTF8Ptr	operator+(int i){ GuardedUTF8Ptr t(*this); t += i; return t; }
+	GuardedUTF8Ptr	operator-=(int i){ return *this += -i; }
+	GuardedUTF8Ptr	operator-(int i){ GuardedUTF8Ptr t(*this); t += -i; return t; }
+
+	// incr/decr functions:
+	GuardedUTF8Ptr&	preincr()	{ return *this += 1; }
+	GuardedUTF8Ptr	postincr()	{ GuardedUTF8Ptr save(*this); ++*this; return save; }
+	GuardedUTF8Ptr	postdecr()	{ GuardedUTF8Ptr save(*this); --*this; return save; }
+	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data, origin)); return *this; }
+
+	// incr/decr operators:
+	GuardedUTF8Ptr	operator++(int)	{ return postincr(); }
+	GuardedUTF8Ptr&	operator++()	{ return preincr(); }
+	GuardedUTF8Ptr	operator--(int)	{ return postdecr(); }
+	GuardedUTF8Ptr&	operator--()	{ return predecr(); }
+	long		operator-(GuardedUTF8Ptr s)	{ return data-s.data; }
+	long		operator-(const char* s)	{ return data-s; }
 	bool		at_bot()
 			{ return data == origin; }
 };
-- 
2.43.0


From 7d84a22f6b46ca15711410568828abecc4d0fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 35/83] fix: an unfinished escape in a Pegexp read beyond the
 end of the pattern

---
 include/pegexp.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 16176e6..5465873 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -401,6 +401,8 @@ protected:
 		}
 		if (rc != '\\')
 			return rc;
+		if (*pattern == '\0')			// Nothing is escaped, don't go past the end
+			return 0;
 		rc = *pattern++;
 		if (rc >= '0' && rc <= '7')		// Octal
 		{
@@ -416,14 +418,16 @@ protected:
 				return 0;
 			if ((braces = (*pattern == '{')))
 				pattern++;
-			rc = unhex(*pattern++);
-			if (rc < 0)
+			int first = unhex(*pattern);
+			if (first < 0)
 				return 0;		// Error: invalid first hex digit
-			int second = unhex(*pattern++);
-			if (second >= 0)
+			rc = first;
+			int second = unhex(*++pattern);
+			if (second >= 0)		// A valid second hex digit
+			{
 				rc = (rc << 4) | second;
-			else
-				pattern--;		// Invalid second hex digit
+				pattern++;
+			}
 			if (braces && *pattern == '}')
 				pattern++;
 		}
-- 
2.43.0


From 392251337c20c1d936ba438efc75a0b0226b6b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:43 +0000
Subject: [PATCH 36/83] fix: skipping a repetition in a Pegexp left its
 operand, and went beyond the end of the pattern

---
 include/pegexp.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 5465873..284311d 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -551,8 +551,8 @@ protected:
 		switch (rc = *state.pattern++)
 		{
 		case '\0':	// End of expression
-			state.pattern--;
 		case ')':	// End of group
+			state.pattern--;
 			matched = true;
 			break;
 
@@ -765,6 +765,11 @@ protected:
 	{
 		switch (char rc = *pattern++)
 		{
+		case '\0':	// End of expression
+		case ')':	// End of group
+			pattern--;	// There is no atom to skip
+			return pattern;
+
 		case '\\':	// Escaped literal char
 			pattern--;
 			(void)literal_char(pattern);
@@ -798,9 +803,12 @@ protected:
 				skip_atom(pattern);
 			break;
 
+		case '?':	// Zero or one
+		case '*':	// Zero or more
+		case '+':	// One or more
 		case '&':	// Positive lookahead assertion
 		case '!':	// Negative lookahead assertion
-			skip_atom(pattern);
+			skip_atom(pattern);	// Skip the atom it applies to
 			break;
 
 		// Extended commands:
-- 
2.43.0


From ebc7f66207a98bc820b061e87d218521578828f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 37/83] fix: Peg lookup failed to find a rule whose name begins
 another rule's name

---
 include/peg.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 1a28516..53fdf43 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -280,11 +280,11 @@ public:
 			[](const void* key, const void* r2) {
 				const char*	key_name = (const char*)key;
 				const char*	rule_name = ((const Rule*)r2)->name;
-				int		len = strlen(rule_name);
+				size_t		len = strcspn(key_name, ">");	// The key is not nul-terminated
 
 				int		cval = strncmp(key_name, rule_name, len);
-				if (cval == 0 && (key_name[len] != '>' && key_name[len] != '\0'))
-					cval = 1;	// This rule has a shortened version of this key
+				if (cval == 0 && rule_name[len] != '\0')
+					cval = -1;	// This key is a shortened version of the rule
 				return cval;
 			}
 		);
-- 
2.43.0


From 32c2b37e973f9786d48a4c6023e2d0d0b45bcbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 38/83] fix: PegCaptureRule captured any label that begins with
 a captured name

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 592a16a..f822c19 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -104,8 +104,12 @@ public:
 		if (!captures)
 			return false;
 		for (int i = 0; captures[i]; i++)
-			if (0 == strncmp(captures[i], label, strlen(captures[i])))
+		{
+			size_t	len = strlen(captures[i]);
+			if (0 == strncmp(captures[i], label, len)
+			 && !isalnum(label[len]) && label[len] != '_')	// The whole label
 				return true;
+		}
 		return false;
 	}
 };
-- 
2.43.0


From 023c76d147df44c96458c37248b598946b256028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 39/83] fix: RxProgram deleted an array as a single object

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 56d5835..d632d47 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -132,7 +132,7 @@ RxProgram::RxProgram(const char* _nfa, bool take_ownership)
 
 RxProgram::~RxProgram()
 {
-	if (nfa && nfa_owned) delete(nfa);
+	if (nfa && nfa_owned) delete[] nfa;
 }
 
 StrVal
-- 
2.43.0


From f9d1440793141c17e522280165bc07c837f1ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 40/83] fix: a regex with a named capture never matched

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index d632d47..2fd15a6 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -397,7 +397,7 @@ next:
 		thread.station = instr.next;
 		TRACK(("\t\tthread %d saves end %d=%d\n", thread.thread_number, instr.capture_number, offset));
 		thread.result = thread.result.captureSet(instr.capture_number*2+1, offset);
-		break;
+		goto next;
 
 	case RxOp::RxoZero:
 		thread.result.counterPushZero(offset);
-- 
2.43.0


From 8a1a37c2b36f42b9a4a82aaf824d4397e40472a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 41/83] fix: matching continued at the wrong offset after a
 negative lookahead

---
 rx/rxmatch.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 2fd15a6..d97d054 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -433,7 +433,8 @@ next:
 	{
 		TRACK(("\t\tthread %d evaluating negative lookahead at %d, text %d '%c'\n", thread.thread_number, thread.station, offset, target[offset]&0xFF));
 		RxMatch		match(*this);
-		RxResult	result = match.matchAt(instr.next, offset);	// REVISIT: Arrange to not keep captures here
+		StrValIndex	ahead = offset;		// matchAt advances this, but we haven't moved
+		RxResult	result = match.matchAt(instr.next, ahead);	// REVISIT: Arrange to not keep captures here
 
 		if (!result)
 		{
-- 
2.43.0


From 98704fdfcc1838201d84bb19c17ea36dc3c2912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 42/83] fix: continuing after a negative lookahead used an
 uninitialised duplicate limit

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index d97d054..3f4f449 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -440,7 +440,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
-- 
2.43.0


From 297270582ec8a459bae4ffb206f16fb0047d9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 43/83] fix: regex repetition counts over 65535 were truncated
 instead of rejected

---
 rx/rxcompile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 9dff646..022b690 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -180,7 +180,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			if (close > 0)
 			{
 				min = param.substr(0, close).asInt32(&int_error, 10, &scanned);
-				if ((int_error && int_error != STRERR_NO_DIGITS) || min < 0)
+				if ((int_error && int_error != STRERR_NO_DIGITS) || min < 0 || min > UINT16_MAX)
 					goto bad_repetition;
 			}
 			i += close;	// Skip the ',' or '}'
@@ -192,7 +192,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (close < 0)
 					goto bad_repetition;
 				max = param.substr(0, close).asInt32(&int_error, 10, &scanned);
-				if ((int_error && int_error != STRERR_NO_DIGITS) || (max && max < min))
+				if ((int_error && int_error != STRERR_NO_DIGITS) || (max && max < min) || max > UINT16_MAX)
 					goto bad_repetition;
 				i += close;
 			}
-- 
2.43.0


From 98d2ead86532f8885004ce83ce85c66425e369b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 44/83] fix: a Thread that was never started had an undefined
 id and state, and could not be deleted

---
 include/thread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index 2531cfe..37854cc 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -115,6 +115,8 @@ public:
 };
 
 Thread::Thread()
+: thread_id(0)
+, state(New)
 {
 #if	defined(HAVE_PTHREADS)
 	// pthread_create starts the thread immediately, before subclass construction has finished,
@@ -144,7 +146,7 @@ Thread::~Thread()
 	if (this == main_thread)
 		return;
 #if	defined(HAVE_PTHREADS)
-	assert(state == Ended);
+	assert(state != Started);
 #elif	defined(MSW)
 	if (state != Ended)
 	{		// It is possible to kill a thread on Windows but seriously ill-advised, because it can leave latches set, etc.
-- 
2.43.0


From 52c2a7642c3f95b81a5caea3cb5529ff78478f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 45/83] fix: a Thread that could not be started was registered;
 its state was set without holding the latch

---
 include/thread.h | 10 ++++++++--
 src/thread.cpp   |  3 +--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 37854cc..fa99fce 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -177,9 +177,15 @@ Thread::resume()
 #if	defined(HAVE_PTHREADS)
 	thread_latch.enter();
 	int	code = pthread_create(&thread_id, (pthread_attr_t*)0, Thread::ThreadProc, this);
-	// if (!code) { Error(ERR_THREAD_CREATE, ...); }		// REVISIT: Report failure to start thread
+	// if (code) { Error(ERR_THREAD_CREATE, ...); }		// REVISIT: Report failure to start thread
 
-	threads.insert({thread_id, this});
+	if (code == 0)
+	{
+		state = Started;
+		threads.insert({thread_id, this});
+	}
+	else
+		thread_id = 0;
 	thread_latch.leave();
 #elif	defined(MSW)
 	if (thread_handle)
diff --git a/src/thread.cpp b/src/thread.cpp
index 417f4a1..80b61f1 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -30,9 +30,8 @@ Thread::ThreadProc(void* _this)
 	thread_latch.leave();
 #elif	defined(MSW)
 	assert(t->handle());
-#endif
-
 	t->state = Started;
+#endif
 
 #if	defined(HAVE_PTHREADS)
 	void*	ret = (void*)(long)t->run();
-- 
2.43.0


From 76f2b6b88891b0f710d2b44a82d8d0788b5ca9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 46/83] fix: Thread exit could not be linked, and did not exit
 the thread, which was then counted as ended twice

---
 include/thread.h | 2 +-
 src/thread.cpp   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index fa99fce..1b8987a 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -49,7 +49,7 @@ public:
 	static	inline ThreadId		currentId();	// current thread id, fast
 	static	inline ProcessId	currentProcessId();
 	static	inline Thread*		current();	// current thread, slower
-	inline void			exit(int);	// exit the current thread
+	void			exit(int);	// exit the current thread
 	static	inline Thread*		main();		// main thread. REVISIT: needed?
 
 	// REVISIT: Iterate over all live threads
diff --git a/src/thread.cpp b/src/thread.cpp
index 80b61f1..a96897f 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -70,6 +70,7 @@ void Thread::exit(int code)
 	thread_latch.leave();
 
 #if	defined(HAVE_PTHREADS)
+	pthread_exit((void*)(long)code);
 #elif	defined(MSW)
 	ExitThread(code);
 #endif
-- 
2.43.0


From 873e174ea6d93b873d6a208c6aa0cb9b8d51187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 47/83] fix: joinAny ignored the last running thread, could
 wait forever, and did not release the threads it joined

---
 include/thread.h | 10 +++++++---
 src/thread.cpp   | 17 ++++++++++-------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 1b8987a..59ebef3 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -95,7 +95,9 @@ public:
 		thread_id = Thread::currentId();
 		state = Started;
 		main_thread = this;	// Override prior initialisation in superclass constructor
-#if	defined(MSW)
+#if	defined(HAVE_PTHREADS)
+		threads.insert({thread_id, this});	// There are no other threads yet
+#elif	defined(MSW)
 		if (!DuplicateHandle(
 			GetCurrentProcess(),
 			GetCurrentThread(),
@@ -182,7 +184,9 @@ Thread::resume()
 	if (code == 0)
 	{
 		state = Started;
-		threads.insert({thread_id, this});
+		if (Thread::find(thread_id))
+			ended_count--;		// Its id was reused before join() could remove it
+		threads[thread_id] = this;
 	}
 	else
 		thread_id = 0;
@@ -204,7 +208,7 @@ void
 Thread::remove_ended()
 {
 	thread_latch.enter();
-	if (Thread::find(thread_id))
+	if (Thread::find(thread_id) == this)
 	{
 		if (state == Ended)
 			ended_count--;
diff --git a/src/thread.cpp b/src/thread.cpp
index a96897f..1c2f65c 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -80,16 +80,16 @@ Thread*
 Thread::joinAny()
 {
 	thread_latch.enter();
-	if (threads.size() <= 1)
-	{
-		thread_latch.leave();
-		return 0;	// No threads except main
-	}
-
 	// Search for a thread whose state is Ended
 	// Remove it from the map and decrement the ended_threads count
 	for (;;)
 	{
+		if (threads.size() <= 1)
+		{
+			thread_latch.leave();
+			return 0;	// No threads except main
+		}
+
 		if (ended_count == 0)	// None have exited but not been joined
 		{
 			ended_threads_condition.wait(&thread_latch);
@@ -108,6 +108,9 @@ Thread::joinAny()
 			assert(!Thread::find(tid));
 			ended_count--;
 			thread_latch.leave();
+#if	defined(HAVE_PTHREADS)
+			pthread_join(tid, 0);	// Release the thread's resources
+#endif
 			return thread;
 		}
 	}
@@ -129,7 +132,7 @@ Thread::join()		// Wait for this thread to end
 
 	thread_latch.enter();
 	Thread* thread = Thread::find(thread_id);
-	if (thread)
+	if (thread == this)
 	{
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
-- 
2.43.0


From f469b6a881fda609b39ac55a1f6a975712b7d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:18 +0000
Subject: [PATCH 48/83] fix: a timed wait on a Condition returned at once

---
 src/condition.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/condition.cpp b/src/condition.cpp
index 13adb95..1ce4c9b 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -6,6 +6,7 @@
  * continued, any thread that tries to signal it again will block.
  */
 #include	<unistd.h>
+#include	<time.h>
 
 #include	<thread.h>
 #include	<condition.h>
@@ -145,9 +146,15 @@ Condition::wait(		// Wait for a ticket
 {
 #if	defined(HAVE_PTHREADS)
 	int		retcode;
-	struct timespec	ts;
-	ts.tv_sec = (unsigned long)timeout / 1000;
-	ts.tv_nsec = (unsigned long)timeout % 1000 * 1000000L;
+	struct timespec	ts;		// The time to wait until
+	clock_gettime(CLOCK_REALTIME, &ts);
+	ts.tv_sec += (unsigned long)timeout / 1000;
+	ts.tv_nsec += (unsigned long)timeout % 1000 * 1000000L;
+	if (ts.tv_nsec >= 1000000000L)
+	{
+		ts.tv_sec++;
+		ts.tv_nsec -= 1000000000L;
+	}
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
 	if (retcode == ETIMEDOUT)
 	{
-- 
2.43.0


From b6308c8918fd0230f4f952f9667db8747dba92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 49/83] fix: constructing the first Latches in several threads
 could use uninitialised attributes

---
 include/lockfree.h | 14 ++++----------
 src/lockfree.cpp   |  2 --
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index 0c92b7f..67ec304 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -39,9 +39,6 @@ public:
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
 
-	static	std::atomic<bool>	initialised;
-	static	pthread_mutexattr_t	attr;
-
 #else
 	// On Windows, condition variables are based on system events so we can do this using atomic
 	std::atomic<ThreadId>	mutex;
@@ -60,14 +57,11 @@ public:
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
 {
-	if (!initialised)
-	{
-		initialised = true;
-		pthread_mutexattr_init(&Latch::attr);
-		pthread_mutexattr_settype(&Latch::attr, PTHREAD_MUTEX_ERRORCHECK);
-	}
-
+	pthread_mutexattr_t	attr;	// Not shared, so there's no race to initialise it
+	pthread_mutexattr_init(&attr);
+	pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
 	pthread_mutex_init(&mutex, &attr);
+	pthread_mutexattr_destroy(&attr);
 }
 
 Latch::~Latch()
diff --git a/src/lockfree.cpp b/src/lockfree.cpp
index 3badcf0..d9bd734 100644
--- a/src/lockfree.cpp
+++ b/src/lockfree.cpp
@@ -7,8 +7,6 @@
 #include	<lockfree.h>
 
 #if	defined(HAVE_PTHREADS)
-pthread_mutexattr_t	Latch::attr;
-std::atomic<bool>	Latch::initialised;
 #else
 
 int			Latch::num_cores;
-- 
2.43.0


From aa9a4efb6d21a0b150d3aa4cb71a1467c0ad7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:30 +0000
Subject: [PATCH 50/83] fix: title-case digraphs are their own title case

---
 src/case_conversions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/case_conversions.c b/src/case_conversions.c
index 6a434bc..a3e9101 100644
--- a/src/case_conversions.c
+++ b/src/case_conversions.c
@@ -834,12 +834,16 @@ static struct
 } UnicodeToTitle[] =
 {
       {	0x01C4,	1 },
+      {	0x01C5,	0 },
       {	0x01C6,	-1 },
       {	0x01C7,	1 },
+      {	0x01C8,	0 },
       {	0x01C9,	-1 },
       {	0x01CA,	1 },
+      {	0x01CB,	0 },
       {	0x01CC,	-1 },
       {	0x01F1,	1 },
+      {	0x01F2,	0 },
       {	0x01F3,	-1 }
 };
 #define	UCS4NumTitleChars (sizeof(UnicodeToTitle)/sizeof(UnicodeToTitle[0]))
-- 
2.43.0


From 673fed09ababf9565167f3500dede8706797ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 51/83] fix: raw binary characters above 0x7F could not be
 found, nor converted

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index af3a5ea..242bb15 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -267,7 +267,7 @@ protected:
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
 			{
 				if (isRawBinary())
-					return *cp++;
+					return (unsigned char)*cp++;
 				return UTF8Get(cp);
 			}
 
@@ -802,7 +802,7 @@ private:
 	UCS4		getChar(const char*& cp) const
 			{
 				if (body->isRawBinary())
-					return *cp++;
+					return (unsigned char)*cp++;
 				return UTF8Get(cp);
 			}
 	void		copyBody()
-- 
2.43.0


From d27c8e295505f89d3c52f0e079115b9aa27e7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 52/83] fix: searching backwards for a substring before
 character 0 searched the whole string

---
 include/strval.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index 242bb15..a137cd5 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -544,6 +544,8 @@ public:
 			{
 				if (s1.length() > length())
 					return -1;			// We're not long enough
+				if (before == 0)
+					return -1;			// Nothing starts before the start
 				Index		n = before == -1 ? length()-s1.length() : before-1;	// First Index we'll look at
 				if (n > length()-s1.length())
 					n = length()-s1.length();
-- 
2.43.0


From 307de5d580fd955decfddb55e957bdf41aad23b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 53/83] fix: character class tests of UCS4 characters: islower
 and isupper indexed the C tables out of bounds

---
 include/char_encoding.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 08d4933..c225d6d 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -87,6 +87,8 @@ inline bool	isalnum(UCS4 c) { return UCS4IsAlphabetic(c) || UCS4IsDecimal(c); }
 inline UCS4	toupper(UCS4 c) { return UCS4ToUpper(c); }
 inline UCS4	tolower(UCS4 c) { return UCS4ToLower(c); }
 inline bool	isspace(UCS4 c) { return UCS4IsWhite(c); }
+inline bool	islower(UCS4 c) { return UCS4ToLower(c) == c && UCS4ToUpper(c) != c; }
+inline bool	isupper(UCS4 c) { return UCS4ToUpper(c) == c && UCS4ToLower(c) != c; }
 
 inline bool
 UCS4IsIllegal(UCS4 ucs4)	// Does this UCS4 character encode an illegal utf-8 byte?
-- 
2.43.0


From 38aaab0bf588b93138d4432ea06f4f00dfb0ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 54/83] fix: Pegexp operators applied to an unparenthesised
 alternation skip only its first alternate

---
 include/pegexp.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 284311d..0c64678 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -619,6 +619,7 @@ protected:
 					context->rollback_capture(iteration_captures);
 
 					// printf("iterated %d (>=min %d <=max %d)\n", repetitions, min, max);
+					state.pattern = repeat_pattern;	// A failed atom may leave this at one of its alternates
 					skip_atom(state.pattern);	// We're done with these repetitions, move on
 					break;
 				}
@@ -659,11 +660,11 @@ protected:
 
 				if (matched)
 				{		// This alternate matched, skip to the end of the alternates
-					while (*state.pattern == '|')	// There's another alternate
+					if (*state.pattern == '|')	// There's another alternate
 						skip_atom(state.pattern);
 					break;
 				}
-				next_alternate = skip_atom(next_alternate);
+				skip_alternate(next_alternate);
 				// Undo new captures on failure of an alternate
 				context->rollback_capture(initial_captures);
 			}
@@ -761,6 +762,14 @@ protected:
 		pattern++;
 	}
 
+	// Skip one alternate, starting at its '|'
+	void		skip_alternate(PatternP& pattern)
+	{
+		pattern++;
+		while (*pattern != '|' && *pattern != ')' && *pattern != '\0')
+			skip_atom(pattern);
+	}
+
 	const PatternP	skip_atom(PatternP& pattern)
 	{
 		switch (char rc = *pattern++)
@@ -798,9 +807,10 @@ protected:
 				pattern++;
 			break;
 
-		case '|':	// First or next alternate; skip to next alternate
-			while (*pattern != '|' && *pattern != ')' && *pattern != '\0')
-				skip_atom(pattern);
+		case '|':	// Alternates; skip all of them
+			pattern--;
+			while (*pattern == '|')
+				skip_alternate(pattern);
 			break;
 
 		case '?':	// Zero or one
-- 
2.43.0


From 5be82c7cc61fc7cc08ca751f937915fab67b8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 55/83] fix: an escaped character like \t is taken literally at
 the start of a range in a Pegexp class

---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 0c64678..d5106af 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -495,7 +495,7 @@ protected:
 
 			// Handle actual properties, not other escapes
 			char	esc = state.pattern[1];
-			if (*state.pattern == '\\' && isalpha(esc) && esc != 'x' && esc != 'u')
+			if (*state.pattern == '\\' && esc != '\0' && strchr("adhLUsw", esc))
 			{
 				state.pattern++;
 				if (char_property(state.pattern, ch))
-- 
2.43.0


From 9df81de2fd8be98ddabeb3224fc2e4f722e4d887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 56/83] fix: a regex with more than 11 alternatives, or
 optional items in sequence, aborted the matcher

---
 rx/rxmatch.cpp | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 3f4f449..bd0660e 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -93,7 +93,12 @@ private:
 	RxStationID	current_count;		// How many of the above are populated
 	Thread*		next_threads;		// The threads that lead on from here
 	RxStationID	next_count;		// How many of the above are populated
-	void		addthread(Thread thread, StrValIndex offset, StrValIndex *shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed = 0);
+	// The shunts that are being followed, innermost first
+	struct Shunt {
+		RxStationID	station;
+		const Shunt*	outer;
+	};
+	void		addthread(Thread thread, StrValIndex offset, const Shunt* shunts, StrValIndex max_duplicates_allowed = 0);
 };
 
 static int32_t zagzig(int32_t i)
@@ -304,22 +309,16 @@ int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in d
 #endif
 
 void
-RxMatch::addthread(Thread thread, StrValIndex offset, StrValIndex* shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed)
+RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* shunts, StrValIndex max_duplicates_allowed)
 {
 	// Recursion control, prevents stack explosion on empty loops
-	for (int i = 0; i < num_shunt; i++)
-		if (shunts[i] == thread.station)
+	for (const Shunt* s = shunts; s; s = s->outer)
+		if (s->station == thread.station)
 		{
 			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
 			return;
 		}
-	assert(num_shunt < RxMaxNesting);
-	if (num_shunt == RxMaxNesting)
-	{
-		TRACK(("\t\tthread %d would exceed nesting limit\n", thread.thread_number));
-		return;
-	}
-	shunts[num_shunt++] = thread.station;
+	Shunt		shunt = { thread.station, shunts };
 
 	int	duplicates = 0;
 	for (int i = 0; i < next_count; i++)
@@ -383,8 +382,8 @@ next:
 
 	case RxOp::RxoSplit:
 		// REVISIT: For non-greedy repetition, we need these addthread calls in opposite order (same for RxoCount)
-		addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt);
-		addthread(Thread(instr.next, thread.result, &thread), offset, shunts, num_shunt);
+		addthread(Thread(instr.alternate, thread.result), offset, &shunt);
+		addthread(Thread(instr.next, thread.result, &thread), offset, &shunt);
 		break;
 
 	case RxOp::RxoCaptureStart:
@@ -416,14 +415,14 @@ next:
 
 		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
 		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result), offset, &shunt, instr.repetition.min);
 
 		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
 		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.next, continuation, &thread), offset, &shunt, instr.repetition.min);
 		}
 		thread.result.clear();
 	}
@@ -440,7 +439,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset, &shunt);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
@@ -478,11 +477,10 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 {
 	Thread*		thread_p;
 	RxDecoded	instr;
-	StrValIndex 	shunts[RxMaxNesting];	// Controls recursion in addthread
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
 	next_count = 0;
-	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, shunts, 0);
+	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, 0);
 	std::swap(current_threads, next_threads);
 	current_count = next_count;
 	next_count = 0;
@@ -636,7 +634,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case succeeded:			// This instruction succeeded, so continue with the next one
 				TRACK(("succeeds\n"));
-				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, shunts, 0);
+				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, 0);
 				break;
 
 			case accepted:			// This thread has matched
-- 
2.43.0


From 66f4a6eafd8d31781663c895fe47e9b24d94d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 57/83] fix: counted regex repetitions of anything but a fixed
 text lost matches, or aborted when repeated

---
 rx/rxmatch.cpp | 110 ++++++++++++++++++++++++++-----------------------
 rx/strregex.h  |   4 +-
 2 files changed, 60 insertions(+), 54 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index bd0660e..e58886c 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -6,6 +6,7 @@
  */
 #include	<strregex.h>
 #include	<cstring>
+#include	<algorithm>
 #include	<utility>
 
 #ifdef	TRACK_RESULTS
@@ -39,7 +40,7 @@ public:
 	int		counterNum() const { return counters_used/2; }
 	int		counterGet(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 1] : 0; }
 	void		counterPushZero(StrValIndex offset);
-	StrValIndex 	counterIncr(StrValIndex offset);
+	StrValIndex 	counterIncr(StrValIndex offset, StrValIndex limit);
 	void		counterPop();
 	const RxResult::Counter	counterTop();
 
@@ -93,12 +94,14 @@ private:
 	RxStationID	current_count;		// How many of the above are populated
 	Thread*		next_threads;		// The threads that lead on from here
 	RxStationID	next_count;		// How many of the above are populated
+	RxStationID	current_max, next_max;	// How many there is room for
 	// The shunts that are being followed, innermost first
 	struct Shunt {
 		RxStationID	station;
+		RxResult	result;			// With the counters at the time
 		const Shunt*	outer;
 	};
-	void		addthread(Thread thread, StrValIndex offset, const Shunt* shunts, StrValIndex max_duplicates_allowed = 0);
+	void		addthread(Thread thread, StrValIndex offset, const Shunt* shunts);
 };
 
 static int32_t zagzig(int32_t i)
@@ -269,6 +272,7 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 	current_count = 0;
 	next_threads = new Thread[i];
 	next_count = 0;
+	current_max = next_max = i;
 }
 
 RxMatch::RxMatch(const RxMatch& _tocopy)
@@ -280,6 +284,7 @@ RxMatch::RxMatch(const RxMatch& _tocopy)
 	current_count = 0;
 	next_threads = new Thread[i];
 	next_count = 0;
+	current_max = next_max = i;
 }
 
 RxMatch::~RxMatch()
@@ -309,47 +314,16 @@ int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in d
 #endif
 
 void
-RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* shunts, StrValIndex max_duplicates_allowed)
+RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* shunts)
 {
 	// Recursion control, prevents stack explosion on empty loops
 	for (const Shunt* s = shunts; s; s = s->outer)
-		if (s->station == thread.station)
+		if (s->station == thread.station && thread.result.countersSame(s->result))
 		{
 			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
 			return;
 		}
-	Shunt		shunt = { thread.station, shunts };
-
-	int	duplicates = 0;
-	for (int i = 0; i < next_count; i++)
-	{
-		if (next_threads[i].station == thread.station)
-		{
-			if ((max_duplicates_allowed			// Check for an exact duplicate first
-				&& thread.result.countersSame(next_threads[i].result))
-			 || ++duplicates > max_duplicates_allowed)	// Or too many duplicates
-			{
-				// The above condition is not perfect - it fails with 5x nested counted repetitions for example.
-				// Failing to find a solution in such a pathological case doesn't bother me.
-				// Should we have a policy of deleting the duplicate with the lowest count?
-
-#ifdef TRACK_RESULTS
-				TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
-				if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
-				TRACK((" of thread %d", next_threads[i].thread_number));
-				if (next_threads[i].result.hasCounter())
-				{
-					TRACK((" (counters"));
-					for (int i = 0; i < next_threads[i].result.counterNum(); i++)
-						TRACK((" %d", next_threads[i].result.counterGet(i)));
-					TRACK((")"));
-				}
-				TRACK(("\n"));
-#endif
-				return;		// We already have this thread
-			}
-		}
-	}
+	Shunt		shunt = { thread.station, thread.result, shunts };
 
 	/*
 	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
@@ -407,22 +381,23 @@ next:
 	{
 		RxResult::Counter	previous = thread.result.counterTop();
 
-		short	counter = thread.result.counterIncr(offset);
+		// Without a maximum, there's no need to distinguish counts above the minimum
+		StrValIndex	limit = instr.repetition.max ? instr.repetition.max : std::max(instr.repetition.min, (uint16_t)1);
+		short	counter = thread.result.counterIncr(offset, limit);
 
 		// Don't repeat unless the offset has increased since the last repeat (instead, just continue with next).
 		if (previous.offset == offset)
 			TRACK(("\t\tRepetition at shunt %d did not proceed from offset %d\n", thread.station, offset));
 
-		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
-		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, &shunt, instr.repetition.min);
+		if ((counter < instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
+		 && (previous.offset < offset || previous.count == 0))	// Only if we advanced, or this was the first time
+			addthread(Thread(instr.alternate, thread.result), offset, &shunt);
 
-		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
-		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
+		if (counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, &shunt, instr.repetition.min);
+			addthread(Thread(instr.next, continuation, &thread), offset, &shunt);
 		}
 		thread.result.clear();
 	}
@@ -461,10 +436,38 @@ next:
 		}
 		TRACK(("\n"));
 #endif
-		assert(next_count < program.maxStation());
-		if (next_count < program.maxStation())
-			next_threads[next_count++] = thread;
-		// else the compiler let us down; silently ignore this possible path and hope something else matches correctly
+		for (int i = 0; i < next_count; i++)
+		{
+			if (next_threads[i].station == thread.station)
+			{
+				if (thread.result.countersSame(next_threads[i].result))
+				{
+#ifdef TRACK_RESULTS
+					TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
+					if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
+					TRACK((" of thread %d", next_threads[i].thread_number));
+					if (next_threads[i].result.hasCounter())
+					{
+						TRACK((" (counters"));
+						for (int i = 0; i < next_threads[i].result.counterNum(); i++)
+							TRACK((" %d", next_threads[i].result.counterGet(i)));
+						TRACK((")"));
+					}
+					TRACK(("\n"));
+#endif
+					return;		// We already have this thread
+				}
+			}
+		}
+		if (next_count == next_max)
+		{		// The same station may have threads with different counts, more than the compiler allowed for
+			Thread*		more_threads = new Thread[next_max*2];
+			std::copy(next_threads, next_threads+next_count, more_threads);
+			delete[] next_threads;
+			next_threads = more_threads;
+			next_max *= 2;
+		}
+		next_threads[next_count++] = thread;
 	}
 };
 
@@ -482,6 +485,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 	next_count = 0;
 	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, 0);
 	std::swap(current_threads, next_threads);
+	std::swap(current_max, next_max);
 	current_count = next_count;
 	next_count = 0;
 	for (; current_count > 0 && offset <= target.length(); offset++)
@@ -659,6 +663,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 		}
 
 		std::swap(current_threads, next_threads);
+		std::swap(current_max, next_max);
 		current_count = next_count;
 		next_count = 0;
 	}
@@ -708,13 +713,14 @@ RxCaptures::counterPushZero(StrValIndex offset)
 }
 
 StrValIndex
-RxCaptures::counterIncr(StrValIndex offset)
+RxCaptures::counterIncr(StrValIndex offset, StrValIndex limit)
 {
 	reserve();
 	assert(counters_used > 0);
 	// TRACK(("Incrementing counter %d = %d\n", counters_used-1, values.at(counterBase()+counters_used-1)+1));
 	values.at(counterBase()+counters_used-2) = offset;
-	return ++values.at(counterBase()+counters_used-1);
+	StrValIndex&	count = values.at(counterBase()+counters_used-1);
+	return count < limit ? ++count : count;
 }
 
 void
@@ -851,7 +857,7 @@ RxResult::captureSet(int index, StrValIndex val)
 }
 
 bool
-RxResult::countersSame(RxResult& other) const
+RxResult::countersSame(const RxResult& other) const
 {
 	if (counterNum() != other.counterNum())
 		return false;
@@ -882,11 +888,11 @@ RxResult::counterPushZero(StrValIndex offset)	// Push a zero counter
 }
 
 StrValIndex
-RxResult::counterIncr(StrValIndex offset)	// Increment and return top counter of stack
+RxResult::counterIncr(StrValIndex offset, StrValIndex limit)	// Increment and return top counter of stack
 {
 	Unshare();
 	assert(captures);
-	return captures->counterIncr(offset);
+	return captures->counterIncr(offset, limit);
 }
 
 void
diff --git a/rx/strregex.h b/rx/strregex.h
index 5338b53..b7d8605 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -206,10 +206,10 @@ public:
 	RxResult&	captureSet(int index, StrValIndex val);
 	int		counterNum() const;	// How many counters are in use?
 	bool		hasCounter() const { return counterNum() > 0; }
-	bool		countersSame(RxResult& other) const;
+	bool		countersSame(const RxResult& other) const;
 	int		counterGet(int = 0) const;		// get the nth top counter
 	void		counterPushZero(StrValIndex offset);	// Push a zero counter at this offset
-	StrValIndex	counterIncr(StrValIndex offset);	// Increment and return top counter of stack
+	StrValIndex	counterIncr(StrValIndex offset, StrValIndex limit = ~0); // Increment (up to limit) and return top counter of stack
 	void		counterPop();		// Discard the top counter of the stack
 	const Counter	counterTop();		// Top counter value, if any
 
-- 
2.43.0


From d01607e68d444aee0cd83741e7de3c76a1d89dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 58/83] fix: a regex repetition {0,n} or {,n} did not match
 zero times

---
 rx/rxmatch.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index e58886c..b4030b6 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -373,6 +373,17 @@ next:
 		goto next;
 
 	case RxOp::RxoZero:
+	{
+		// Find the Count that ends this repetition. If it has no minimum, we may skip the repetition
+		RxDecoded	count;
+		RxStationID	after = instr.next;
+		do {
+			program.decode(after, count);
+			after = count.next;
+		} while (count.op != RxOp::RxoCount || count.alternate != instr.next);
+		if (count.repetition.min == 0)
+			addthread(Thread(after, thread.result, &thread), offset, &shunt);
+	}
 		thread.result.counterPushZero(offset);
 		thread = Thread(instr.next, thread.result, &thread);
 		goto next;
-- 
2.43.0


From a4f2e8cb104f1258b3315ae009baaa1271a358ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 59/83] fix: an exact regex repetition count was rejected if a
 comma followed anywhere

---
 rx/rxcompile.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 022b690..4d9e3ad 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -169,9 +169,13 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			param = re.substr(++i);
 			min = max = 0;
 			// Find the end of the first number:
-			close = param.find(',');
-			if (close < 0)
-				close = param.find('}'); // Just one number?
+			close = param.find('}');
+			if (close >= 0)
+			{
+				int	comma = param.substr(0, close).find(',');
+				if (comma >= 0)
+					close = comma;	// There are two numbers
+			}
 			if (close < 0)
 			{
 		bad_repetition:	error_message = "Bad repetition count";
-- 
2.43.0


From 3bbffb879a714888606d3241f77b19ea57bb830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 60/83] fix: a regex that ends with a backslash compiled to a
 NUL character instead of an error

---
 rx/rxcompile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 4d9e3ad..22c10d8 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -207,6 +207,11 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '\\':		// Escape sequence
+			if (i+1 >= re.length())
+			{
+				error_message = "Incomplete escape";
+				break;
+			}
 			switch (ch = re[++i])
 			{
 			case 'b': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
-- 
2.43.0


From f8e42909b6de4d5c470de5f19b166166cf3ad330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 61/83] fix: scanning continued after a regex error, and an
 extra closing parenthesis had no message

---
 rx/rxcompile.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 22c10d8..4bb2c64 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -439,9 +439,12 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 		}
 		if (!ok || error_message)
+		{
 			error_offset = i;
+			break;
+		}
 	}
-	if (ok)
+	if (ok && !error_message)
 		ok = flush();
 	if (ok && !error_message && i >= re.length())	// If we didn't complete, there was an error
 	{
@@ -643,7 +646,7 @@ RxCompiler::compile(char*& nfa)
 				goto str_param;			// This string will be in the names table of RxoStart
 
 			case RxOp::RxoEndGroup:			// End of a group
-				if (nesting <= 0)
+				if (nesting <= 1)	// Only the RxoStart is open
 				{
 					error_message = "Too many closing parentheses";
 					return false;
-- 
2.43.0


From ead817bf947751152c211d3b4511af0abc6a123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 62/83] fix: repetition after white space in an extended regex
 repeated all the characters before

---
 rx/rxcompile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 4bb2c64..1af64aa 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -964,6 +964,7 @@ RxCompiler::compile(char*& nfa)
 				ep--;
 				for (int i = 0; i < instr.str.length(); i++)
 				{		// Emit each character one at a time
+					this_atom_start = ep;	// Only the last character can be repeated
 					*ep++ = (char)RxOp::RxoChar;
 					UTF8Put(ep, instr.str[i]);
 				}
-- 
2.43.0


From d7fd8da77abe5279c5deded68bbf5535f5cbf516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 63/83] fix: the space for a compiled regex was underestimated,
 so that it could overflow or abort

---
 rx/rxcompile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 1af64aa..4bf8ae2 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -738,6 +738,8 @@ RxCompiler::compile(char*& nfa)
 	if (!ok)
 		return false;
 
+	bytes_required += UTF8Len((UCS4)station_count<<1);	// This is unrelated to the size of the NFA
+
 	// What is a maximum sufficient size (in bytes) of an offset, if all offsets were the maximum 4 bytes?
 	// Note that zig-zag encoding means an offset may be twice the maximum size of the NFA.
 	StrValIndex	offset_max_bytes = UTF8Len(2*(bytes_required+offsets_required*4));	// Upper limit on offset size
@@ -745,8 +747,8 @@ RxCompiler::compile(char*& nfa)
 
 	// The maximum size of the nfa is thus (bytes_required+offsets_required*offset_max_bytes)
 	// Now we know this, we know the maximum size of an actual offset and can get close to the actual NFA size.
-	// This might be a tad high as some offsets might shrink, but not by much.
-	bytes_required += offsets_required * UTF8Len(bytes_required+offsets_required*offset_max_bytes);
+	// This is high as most offsets will shrink, but they're not patched until after space is reserved for them.
+	bytes_required += offsets_required * offset_max_bytes;
 	// printf("Allocating %d bytes for the NFA\n", bytes_required);
 
 	nfa = new UTF8[bytes_required+1];
-- 
2.43.0


From def8aa1bc7c3d38d27662ddb5d36a15090b42a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 64/83] fix: a regex offset that shrank across a coding
 boundary went to the wrong place

---
 rx/rxcompile.cpp | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 4bf8ae2..2ece6b4 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -832,15 +832,20 @@ RxCompiler::compile(char*& nfa)
 			 *
 			 * Patch the offset there to point to offset_to.
 			 * If the offset fits in fewer than offset_max_bytes UTF-8 bytes, we must shuffle down.
-			 * This reduces the offset, which can cause it to cross a UTF-8 coding boundary,
-			 * taking one fewer bytes, a process that can only happen once(?).
+			 * This reduces the offset (if it goes forward), which can cause it to cross a UTF-8
+			 * coding boundary, taking fewer bytes, so we must repeat until that doesn't change.
 			 */
 			int		offset = offset_to - patch_location;
-			StrValIndex	byte_count = UTF8Len(zigzag(offset));
-			StrValIndex	shrinkage = offset_max_bytes - byte_count;
-			if (byte_count < offset_max_bytes	// We'll shuffle
-			 && patch_location < offset_to)		// And the patch location is prior to the target
-				offset -= shrinkage;		// The offset is now smaller
+			if (offset > 0)
+			{
+				StrValIndex	byte_count = offset_max_bytes;
+				StrValIndex	shrunk;
+				while ((shrunk = UTF8Len(zigzag(offset))) < byte_count)
+				{
+					offset -= byte_count-shrunk;
+					byte_count = shrunk;
+				}
+			}
 
 			return patch_value_at(patch_location, offset);
 		};
@@ -1070,31 +1075,27 @@ RxCompiler::compile(char*& nfa)
 				 */
 				if (instr.repetition.min == 0 && instr.repetition.max == 0)
 				{
-					char*	cp;
 					insert_split(last_atom_start-nfa);
 					*ep++ = (char)RxOp::RxoJump;
-					cp = ep;	// Remember where we put the jump offset
 
 					/*
 					 * The offset in the split has the same magnitude as the negative one in the jump,
 					 * but zigzag coding means the negative integer is one more than the positive.
 					 * It might therefore take one more byte (at the boundary of UTF8 coding).
 					 */
-					StrValIndex	fwd_bytes = offset_max_bytes, rev_bytes = offset_max_bytes, last_rev;
-					int		delta;		// offset value for the Split
-					int		rev_delta;	// offset value for the Jump
+					StrValIndex	fwd_bytes = 1, rev_bytes = 1, last_fwd, last_rev;
+					int		contents = ep - (last_atom_start+1+offset_max_bytes); // Everything between the two offsets
+					int		delta;		// offset value for the Split, which goes past the Jump
 					do {
-						// last_atom_start+1 is the location of the Split offset
-						// ep+rev_bytes is our guess at its target
-						delta = (ep+rev_bytes) - (last_atom_start+1);	// The forward split offset
-						fwd_bytes = UTF8Len(zigzag(delta));
-						rev_delta = last_atom_start - (ep-(offset_max_bytes-fwd_bytes));
+						last_fwd = fwd_bytes;
 						last_rev = rev_bytes;
-						rev_bytes = UTF8Len(zigzag(rev_delta));
-					} while (rev_bytes < last_rev);
+						delta = fwd_bytes + contents + rev_bytes;
+						fwd_bytes = UTF8Len(zigzag(delta));
+						rev_bytes = UTF8Len(zigzag(-(1 + (int)fwd_bytes + contents)));
+					} while (fwd_bytes != last_fwd || rev_bytes != last_rev);
 
-					patch_offset(last_atom_start+1-nfa, ep+rev_bytes-nfa);
-					emit_offset(ep, rev_delta);
+					patch_value_at(last_atom_start+1-nfa, delta);
+					emit_offset(ep, last_atom_start - ep);
 				}
 				else if (instr.repetition.min == 0 && instr.repetition.max == 1)
 				{
-- 
2.43.0


From be9cba266c0d61bf8a0bff7e6ba24e2d25bb22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 65/83] fix: a regex '?' was a repetition even if
 ZeroOrOneQuest was disabled or rejected

---
 rx/rxcompile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 2ece6b4..01a1c84 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -139,6 +139,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
+			if (!enabled(RxFeature::AnyIsQuest) && !supported(RxFeature::ZeroOrOneQuest))
+				goto simple_char;
 			if (!(ok = flush())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
-- 
2.43.0


From 0d026988bbfda4773a5bfab257c2f9ce6244450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 66/83] fix: rejected regex escape features were taken
 literally instead of being errors

---
 rx/rxcompile.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 01a1c84..2b1d34b 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -216,16 +216,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			}
 			switch (ch = re[++i])
 			{
-			case 'b': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
-			case 'e': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
-			case 'f': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
-			case 'n': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
-			case 't': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
-			case 'r': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
+			case 'b': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
+			case 'e': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
+			case 'f': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
+			case 'n': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
+			case 't': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
+			case 'r': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
 
 			case '0': case '1': case '2': case '3':	// Octal char constant
 			case '4': case '5': case '6': case '7':
-				if (!enabled(RxFeature::OctalChar))
+				if (!supported(RxFeature::OctalChar))
 					goto simple_escape;
 				param = re.substr(i, 3);
 				ch = param.asInt32(&int_error, 8, &scanned);
@@ -238,7 +238,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'x':			// Hex byte (1 or 2 hex digits follow)
-				if (!enabled(RxFeature::HexChar))
+				if (!supported(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
 				param = re.substr(++i, 2);
@@ -252,7 +252,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'u':			// Unicode (1-5 hex digits follow)
-				if (!enabled(RxFeature::UnicodeChar))
+				if (!supported(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
 				param = re.substr(++i, 5);
@@ -269,7 +269,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case 's':			// Whitespace
 			case 'd':			// Digit
 			case 'h':			// Hexdigit
-				if (!enabled(RxFeature::Shorthand))
+				if (!supported(RxFeature::Shorthand))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				// REVISIT: Also support \w, etc
@@ -277,7 +277,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				break;
 
 			case 'p':			// Posix character type
-				if (!enabled(RxFeature::PropertyChars))
+				if (!supported(RxFeature::PropertyChars))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				if (re[++i] != '{')
-- 
2.43.0


From 243ef16cffde4425b8c93385f7992842845b9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 67/83] fix: rejecting one kind of regex group rejected the
 other kinds too

---
 rx/rxcompile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 2b1d34b..4510c85 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -386,7 +386,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			}
 
 			i += 2;	// Skip the '(?'
-			if (supported(RxFeature::Capture) && re[i] == '<')		// Capture
+			if (re[i] == '<' && supported(RxFeature::Capture))		// Capture
 			{
 				param = re.substr(++i);
 				close = param.find('>');
@@ -400,12 +400,12 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				ok = func(RxToken(RxOp::RxoNamedCapture, param));
 				break;
 			}
-			else if (supported(RxFeature::NonCapture) && re[i] == ':')	// Noncapturing group
+			else if (re[i] == ':' && supported(RxFeature::NonCapture))	// Noncapturing group
 			{
 				ok = func(RxToken(RxOp::RxoNonCapturingGroup));
 				break;
 			}
-			else if (supported(RxFeature::NegLookahead) && re[i] == '!') // Negative Lookahead
+			else if (re[i] == '!' && supported(RxFeature::NegLookahead)) // Negative Lookahead
 			{
 				ok = func(RxToken(RxOp::RxoNegLookahead));
 				break;
-- 
2.43.0


From 3bb44c6c3751da549494149f0c67ce500c4483e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 68/83] fix: a Peg with its default capture context could not
 be instantiated

---
 include/peg.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 53fdf43..51b5af2 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -60,6 +60,7 @@ class PegContextNoCapture
 {
 public:
 	using	Match = _Match;
+	using	State = typename Match::State;
 	using	Source = typename Match::Source;
 	using	PegexpT = PegPegexp<PegContextNoCapture>;
 	using	Rule = PegRuleNoCapture<PegexpT>;
@@ -92,11 +93,11 @@ public:
 	// When an atom of a Pegexp fails, the atom (pointer to start and end) and Source location are passed here
 	void		record_failure(PatternP op, PatternP op_end, Source location) {}
 
-	Match		match_result(Source from, Source to)	// Capture the range of text
+	Match		match_result(State from, State to)	// Capture the range of text
 			{ return Match(from, to); }
 
-	Match		match_failure(Source at)
-			{ return Match(at, Source()); }
+	Match		match_failure(State at)
+			{ return Match(at, at); }
 
 	PegT*		peg;
 	PegContextNoCapture* 	parent;
-- 
2.43.0


From dfe26dbc3a3574d73031c332ff9a7788a3383ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 69/83] fix: StrVal transform with a non-default index could
 not be instantiated

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index a137cd5..f1e411b 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -931,7 +931,7 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 		 && !stopped)			// We have stopped transforming
 		{
 			assert(next < ep);
-			StrVal		replacement = xform(next, ep);
+			Val		replacement = xform(next, ep);
 			Index		replaced_bytes = next-up;	// How many bytes were consumed?
 			Index		replaced_chars = replacement.length();	// Replaced by how many chars?
 
-- 
2.43.0


From 335b25b15e0e58bd5a0a3987662c1d8c1df5b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 70/83] fix: comparing and casting a Ref could not be
 instantiated

---
 include/refcount.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/refcount.h b/include/refcount.h
index 2172271..7515db2 100644
--- a/include/refcount.h
+++ b/include/refcount.h
@@ -62,12 +62,12 @@ public:
 	// Casting to other Ref types
 	template <class S> Ref<S>
 			Cast()
-			{ return Ref<S>(static_cast<S*>(*this)); }
+			{ return Ref<S>(static_cast<S*>(ptr)); }
 
-	bool		operator==(const Ref& other) const { return *this == *other; }
-	bool		operator!=(const Ref& other) const { return *this != *other; }
-	bool		operator<(const Ref& other) const { return *this < *other; }
-	bool		operator>(const Ref& other) const { return *this > *other; }
+	bool		operator==(const Ref& other) const { return **this == *other; }
+	bool		operator!=(const Ref& other) const { return **this != *other; }
+	bool		operator<(const Ref& other) const { return **this < *other; }
+	bool		operator>(const Ref& other) const { return **this > *other; }
 			operator bool() const { return ptr != 0; }
 
 	// The following methods require T::GetRefCount():
-- 
2.43.0


From 214239d9a9ea70d522cd83f73795aea8421655a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 71/83] fix: a StringArray made from StrVals read them as if
 they were StrRefs

---
 include/strval.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index f1e411b..3a31ea8 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1213,8 +1213,10 @@ public:
 	StringArray() {}
 	StringArray(const Base& a1) : Base(a1) {}
 	StringArray(const StrVal* data, Index size, Index allocate = 0)
-	: Array(data, size, allocate)
+	: Array((const StrRef*)0, 0, allocate < size ? size : allocate)	// A StrVal is bigger than the StrRef we hold
 	{
+		for (Index i = 0; i < size; i++)
+			append(data[i]);
 	}
 
 	// Construct from an Array of const char*
-- 
2.43.0


From 24e75db33762684fbf4fb0572a73d7b271fe4e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 72/83] fix: a labelled Pegexp atom captured the captures of
 the whole rule instead of its own text

---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index d5106af..94673f4 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -749,7 +749,7 @@ protected:
 			if (context->capture_disabled == 0)
 				(void)context->capture(
 					name, name_end-name,
-					context->match_result(start_state, state),
+					Match(start_state, state),	// Just the text of this atom
 					context->repetition_nesting > 0
 				);
 		}
-- 
2.43.0


From 180cab73c7e1d2770bd84187a1f9240949895908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 73/83] fix: a Peg rule's captures were not rolled back partway
 when an alternate failed

---
 include/peg_ast.h | 48 +++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index f822c19..2db1b44 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -138,7 +138,6 @@ public:
 	, root(_parent ? _parent->root : this)
 	, rule(_rule)
 	, origin(_origin)
-	, num_captures(0)
 	, furthermost_success(_origin)	// Farthest Source location we reached
 	{
 		root->path.push(rule->name);
@@ -155,44 +154,53 @@ public:
 		Variant		existing;
 
 		if (value.type() == Variant::String && value.as_strval().length() == 0)
-			return num_captures;
+			return captures.length();
 
 		// REVISIT: If this rule captures one item only, can we collapse the AST?
 
 		if (ast.contains(key))
 		{		// There are previous captures under this name
 			existing = ast[key];
-			if (existing.type() != Variant::VarArray)
+			bool	single = existing.type() != Variant::VarArray;
+			if (single)
 				existing = Variant(&existing, 1);	// Convert it to an array
+			captures.append({key, single});
 			VariantArray va = existing.as_variant_array();
 			va += value;		// This Unshares va from the entry stored in the map, so
 			ast.put(key, va);	// replace it with this value
-			existing = ast[key];
 		}
-		else	// Insert the match as the first element in an array, or just as itself:
+		else
+		{		// Insert the match as the first element in an array, or just as itself:
+			captures.append({key, false});
 			ast.insert(key, in_repetition ? Variant(&value, 1) : value);
+		}
 
-		num_captures++;
-		return 0;
+		return captures.length();
 	}
 
 	int		capture_count() const
 	{
-		return num_captures;
+		return captures.length();
 	}
 
-	// The grammar should not capture anything that rolls back except to zero, unless on failure:
+	// Undo captures made on a path that failed, latest first:
 	void		rollback_capture(int count)
 	{
-		if (count >= num_captures)
-			return;
-		if (count == 0)
-		{		// We can rollback to zero, but not partway
-			ast.clear();
-			num_captures = 0;
-			return;
+		while (captures.length() > count)
+		{
+			Capture		last = captures.pull();
+			Variant		value = ast[last.key];
+			VariantArray	va;
+			if (value.type() == Variant::VarArray)
+				va = value.as_variant_array();
+			if (va.length() <= 1)
+			{		// This was the only capture under this name
+				ast.remove(last.key);
+				continue;
+			}
+			(void)va.pull();
+			ast.put(last.key, last.was_single ? va[0] : Variant(va));
 		}
-		printf("REVISIT: Not rolling back to %d from %d\n", count, num_captures);
 	}
 
 	void		record_failure(PatternP op, PatternP op_end, Source location)
@@ -264,7 +272,11 @@ public:
 	int		capture_disabled;	// Counter that bumps up from zero to disable captures
 
 protected:
-	int		num_captures;
+	struct Capture {
+		StrVal	key;
+		bool	was_single;	// The previous capture under this name was not in an array
+	};
+	Array<Capture>	captures;	// What to undo on rollback
 	StrVariantMap	ast;
 
 	// The next two are populated only on the outermost Context, to be returned from the parse
-- 
2.43.0


From 7ebd37c5e4bee1e1512c1534fbaa76ee62878578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 74/83] fix: the reasons and place of a Peg failure were lost
 from its result

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 2db1b44..af1d633 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -243,7 +243,11 @@ public:
 	}
 
 	Match		match_failure(State at)
-	{ return Match(at, at); }
+	{
+		if (parent == 0)	// Report how far we got, and why no further
+			return Match(Variant(), furthermost_success, failures);
+		return Match(at, at);
+	}
 
 #if defined(PEG_TRACE)
 	int		depth()
-- 
2.43.0


From b29087ca61d7696c5c3a180f7d14d9b790adc707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 75/83] fix: a Pegexp failure was recorded with only part of
 the atom that failed

---
 include/pegexp.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 94673f4..7589ac0 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -477,18 +477,13 @@ protected:
 
 	bool		char_class(State& state)
 	{
-		if (state.source.at_eof())		// End of input never matches a char_class
-			return false;
-
-		State	start_state(state);
-		start_state.pattern--;
-
+		bool	at_eof = state.source.at_eof();	// End of input never matches a char_class
 		bool	negated;
 		if ((negated = (*state.pattern == '^')))
 			state.pattern++;
 
 		bool	in_class = false;
-		Char	ch = state.source.get_char();
+		Char	ch = at_eof ? 0 : state.source.get_char();
 		while (*state.pattern != '\0' && *state.pattern != ']')
 		{
 			Char	c1;
@@ -518,7 +513,7 @@ protected:
 			state.pattern++;
 		if (negated)
 			in_class = !in_class;
-		return in_class;
+		return in_class && !at_eof;
 	}
 
 	// Null extension; treat extensions like literal characters
@@ -529,10 +524,8 @@ protected:
 
 	bool		match_literal(State& state, Context* context)
 	{
-		if (state.source.at_eof() || *state.pattern != state.source.get_char())
-			return false;
-		state.pattern++;
-		return true;
+		char		c = *state.pattern++;
+		return !state.source.at_eof() && c == state.source.get_char();
 	}
 
 	/*
@@ -577,8 +570,11 @@ protected:
 			break;
 
 		case '\\':	// Escaped literal char
-			matched = !state.source.at_eof() && char_property(state.pattern, state.source.get_char());
+		{
+			bool	at_eof = state.source.at_eof();	// Move past the escape sequence anyway
+			matched = char_property(state.pattern, at_eof ? 0 : state.source.get_char()) && !at_eof;
 			break;
+		}
 
 		case '[':	// Character class
 			matched = char_class(state);
-- 
2.43.0


From 2fc24d2790fb186a19b6a6bb740a3cdfa910e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 76/83] fix: peg_ast.h used Variant without including it

---
 include/peg_ast.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index af1d633..ec4b7ed 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -9,6 +9,7 @@
 #include	<char_encoding.h>
 #include	<peg.h>
 #include	<utf8_ptr.h>
+#include	<variant.h>
 
 #include	<cstdio>
 
-- 
2.43.0


From 2b7117ed39e9141db89ca4c65ff8117da36fc1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 77/83] fix: RxResult::resultNumber was declared but never
 defined

---
 rx/strregex.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rx/strregex.h b/rx/strregex.h
index b7d8605..f4aa730 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -213,8 +213,6 @@ public:
 	void		counterPop();		// Discard the top counter of the stack
 	const Counter	counterTop();		// Top counter value, if any
 
-        int		resultNumber() const;	// Only used for diagnostics
-
 private:
 	StrValIndex	cap0, cap1;		// Start and end of match
 	Ref<RxCaptures> captures;
-- 
2.43.0


From c6250d42b7fb5fe94c1552d1f6d61c37e9267172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:39 +0000
Subject: [PATCH 78/83] fix: counting the characters of a shared StrVal body
 stored partial counts that other threads could see

---
 include/strval.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 3a31ea8..a2bb933 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -253,6 +253,7 @@ protected:
 
 				const char*	cp = start;		// Progress pointer when reading data
 				char*		ep = start+num_elements-1;	// Marker for end of data
+				Index		count = 0;		// num_chars is seen by other threads; set it only when final
 				while (cp < ep)
 				{
 					UCS4		ch = UTF8Get(cp);
@@ -260,8 +261,9 @@ protected:
 					 || cp > ep)			// Overlaps the end of data
 						break;			// An error occurred before the end of the data; truncate it.
 					// Count illegal UTF-8 characters here
-					num_chars++;
+					count++;
 				}
+				num_chars = count;
 			}
 
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
-- 
2.43.0


From b1d2c2a5a4aa2f8079e98dbfaa0875d7db9b25f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 79/83] fix: static strings made before the null body was
 initialised freed it when destroyed

---
 include/array.h    | 2 ++
 include/refcount.h | 1 +
 include/strval.h   | 4 +++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/array.h b/include/array.h
index f39ca44..7a86ad4 100644
--- a/include/array.h
+++ b/include/array.h
@@ -509,6 +509,8 @@ public:
 			}
 	ArrayBody()
 			: start(0), num_elements(0), num_alloc(0) { }
+	constexpr ArrayBody(Element* data, Index length)	// Static body, never copied, resized or deleted
+			: RefCounted(1), start(data), num_elements(length), num_alloc(0) { }
 	ArrayBody(const Element* data, bool copy, Index length, Index allocate = 0)
 			: start(0)
 			, num_elements(0)
diff --git a/include/refcount.h b/include/refcount.h
index 7515db2..0cd0e3e 100644
--- a/include/refcount.h
+++ b/include/refcount.h
@@ -19,6 +19,7 @@ public:
 	int		GetRefCount() volatile const { return (int)ref_count; }
 
 protected:
+			constexpr RefCounted(int refs) : ref_count(refs) {}	// Static object, initialised before any code runs
         std::atomic<int>	ref_count;
 };
 
diff --git a/include/strval.h b/include/strval.h
index a2bb933..1eca9fe 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -77,6 +77,8 @@ public:
 
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
+	constexpr StrBodyI(char* data, Index elements)	// Static body, usable by the initialisers of other static objects
+			: Body(data, elements), num_chars(0) {}
 	StrBodyI(const char* data, StrDataType dt, Index length = 0, Index allocate = 0)
 			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+(dt == StrStatic), allocate)
 			, num_chars(0)
@@ -282,7 +284,7 @@ protected:
 			}
 };
 
-template<typename Index> class StrBodyI<Index> StrBodyI<Index>::nullBody("", StrStatic, 0, 0);
+template<typename Index> class StrBodyI<Index> StrBodyI<Index>::nullBody((char*)"", 1);
 
 // A StrVal defined by number of bits in the index:
 template<unsigned int IndexBits = StrValIndexBits>
-- 
2.43.0


From b150a6e1d2c0435ab193c60444bd5867c54196c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 80/83] fix: empty slices of strings in static initialisers
 copied StrVal::null before it was initialised

---
 include/strval.h | 6 +++---
 rx/rxcompile.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 1eca9fe..e677c91 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -471,7 +471,7 @@ public:
 			{
 				// Quick check for a null substring:
 				if (len < -1 || len == 0 || at >= length())
-					return null;
+					return StrValI();
 
 				// Clamp substring length:
 				if (len > 0)
@@ -479,7 +479,7 @@ public:
 					if (at < 0)
 						len -= at, at = 0;
 					if (len < 0)
-						return null;
+						return StrValI();
 					if (len > length()-at)
 						len = length()-at;
 				}
@@ -493,7 +493,7 @@ public:
 	StrValI		tail(Index chars) const
 			{ return substr(length()-chars, chars); }
 	StrValI		shorter(Index chars) const	// all chars up to tail
-			{ return chars >= length() ? null : substr(0, length()-chars); }
+			{ return chars >= length() ? StrValI() : substr(0, length()-chars); }
 //	StrValI&	remove(Index at, int len = -1);	// Delete a substring from the middle
 
 	// Search for a character:
diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 4510c85..8d02b78 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -105,7 +105,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (delayed.length() > 0)
 				{
 					bool	ok = func(RxToken(RxOp::RxoLiteral, delayed));
-					delayed = StrVal::null;
+					delayed = StrVal();
 					return ok;
 				}
 				return true;
@@ -322,7 +322,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			if (char_class_negated)
 				i++;
 
-			param = StrVal::null;
+			param = StrVal();
 
 			// A char class that starts with - or ] mean those literally:
 			ch = re[i];
-- 
2.43.0


From 8f5a1ded307ce9d0b6320d1b1cb3b88fab9398be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:23 +0000
Subject: [PATCH 81/83] fix: the capacity of an array rounded up past what its
 Index can count became zero, so that it overflowed

---
 include/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array.h b/include/array.h
index 7a86ad4..1230294 100644
--- a/include/array.h
+++ b/include/array.h
@@ -605,6 +605,8 @@ protected:
 					return;		// Never release memory on a downsize
 
 				minimum = ((minimum-1)|0x7)+1;	// round up to multiple of 8
+				if (minimum > (Index)-1)
+					minimum = (Index)-1;	// but not to more than an Index can count
 				if (num_alloc)	// Minimum growth 50% rounded up to nearest 16
 					num_alloc = ((num_alloc*3/2) | 0xF) + 1;
 				if (num_alloc < minimum)
-- 
2.43.0


From aeb103c36929ae3c97aa59c8762e9480a5874a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:02 +0000
Subject: [PATCH 82/83] fix: strings of bytes with 16-bit indexes were not
 recognised as such

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index e677c91..8591b8e 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -96,7 +96,7 @@ public:
 	bool		isNulTerminated() const			// If we allocated memory, it's always terminated
 			{ return num_alloc > 0 || start[num_elements-1] == '\0'; }
 	bool		isRawBinary() const
-			{ return num_chars == StrValIndexRawBinaryMarker; }
+			{ return num_chars == (Index)StrValIndexRawBinaryMarker; }
 
 	Index		numChars()
 			{
-- 
2.43.0


From e60d9238660f8c51fac2c462eba86fd09d920746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:26 +0000
Subject: [PATCH 83/83] fix: a text longer than an Index can count was cut
 short without notice

---
 include/strval.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 8591b8e..59297f0 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -80,7 +80,7 @@ public:
 	constexpr StrBodyI(char* data, Index elements)	// Static body, usable by the initialisers of other static objects
 			: Body(data, elements), num_chars(0) {}
 	StrBodyI(const char* data, StrDataType dt, Index length = 0, Index allocate = 0)
-			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+(dt == StrStatic), allocate)
+			: Body(data, dt != StrStatic, (length == 0 ? countable(strlen(data)) : length)+(dt == StrStatic), allocate)
 			, num_chars(0)
 			{
 				// REVISIT: Need a Panic() function when a string passes the allowed maximum size
@@ -247,6 +247,11 @@ public:	void		insertBytes(Index pos, const char* addend, Index len)
 			}
 
 protected:
+	static Index	countable(size_t bytes)	// Text must not be cut to what an Index can count
+			{
+				assert(bytes < (Index)-1);	// Leaving room for the NUL
+				return bytes;
+			}
 	Index		num_chars;	// zero if not yet counted, StrValIndexRawBinaryMarker if locale-8bit
 	void		countChars()
 			{
-- 
2.43.0

