From b823243ed784714e3f22b375d1cd630300f9d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:17 +0000
Subject: [PATCH 01/28] fix: assigning a Ptr from a handle owned by the object
 being released read freed memory

---
 Source/Primitives/Pointer.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 2e0e034..7614f0c 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -109,6 +109,14 @@ Ptr
 			}
 		}
 
+		void Swap(Ptr<T>& pointer)
+		{
+			std::swap(counter, pointer.counter);
+			std::swap(reference, pointer.reference);
+			std::swap(originalReference, pointer.originalReference);
+			std::swap(originalDestructor, pointer.originalDestructor);
+		}
+
 		atomic_vint* Counter()const
 		{
 			return counter;
@@ -242,12 +250,9 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
-				counter = pointer.counter;
-				reference = pointer.reference;
-				originalReference = pointer.originalReference;
-				originalDestructor = pointer.originalDestructor;
-				Inc();
+				// "pointer" could be owned by the object that is going to be released
+				Ptr<T> replaced(pointer);
+				Swap(replaced);
 			}
 			return *this;
 		}
@@ -259,12 +264,9 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
-				counter = pointer.counter;
-				reference = pointer.reference;
-				originalReference = pointer.originalReference;
-				originalDestructor = pointer.originalDestructor;
-				pointer.SetEmptyNoIncDec();
+				// "pointer" could be owned by the object that is going to be released
+				Ptr<T> replaced(std::move(pointer));
+				Swap(replaced);
 			}
 			return *this;
 		}
-- 
2.43.0


From efb2b1437bef235bba451733e2b5fd9b47571e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:17 +0000
Subject: [PATCH 02/28] fix: Ptr::Detach left the handle owning an object that
 has other owners, releasing it twice

---
 Source/Primitives/Pointer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 7614f0c..44906ea 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -220,6 +220,7 @@ Ptr
 		{
 			auto detached = reference;
 			Dec(false);
+			SetEmptyNoIncDec();
 			return detached;
 		}
 
-- 
2.43.0


From 88f27e5a4ff920b9779fcd89eba2210d28b870a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:17 +0000
Subject: [PATCH 03/28] fix: assigning a ComPtr from a handle owned by the
 object being released read freed memory

---
 Source/Primitives/Pointer.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 44906ea..85991f6 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -429,10 +429,10 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
-				counter = pointer.counter;
-				reference = pointer.reference;
-				Inc();
+				// "pointer" could be owned by the object that is going to be released
+				ComPtr<T> replaced(pointer);
+				std::swap(counter, replaced.counter);
+				std::swap(reference, replaced.reference);
 			}
 			return *this;
 		}
@@ -441,10 +441,10 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
-				counter = pointer.counter;
-				reference = pointer.reference;
-				pointer.SetEmpty();
+				// "pointer" could be owned by the object that is going to be released
+				ComPtr<T> replaced(std::move(pointer));
+				std::swap(counter, replaced.counter);
+				std::swap(reference, replaced.reference);
 			}
 			return *this;
 		}
-- 
2.43.0


From ade918e9a0d87d2adf753d973cfda9234cede59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:25 +0000
Subject: [PATCH 04/28] fix: List::RemoveRange accepted a negative count and
 wrote past the end of its storage

---
 Source/Collections/List.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index fb6d43b..d46f7c2 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -522,7 +522,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(index + _count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && _count <= this->count - index, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
-- 
2.43.0


From 470259cde02c795f4e3edb8b06ca9a60cb323674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:53 +0000
Subject: [PATCH 05/28] fix: adding an element of a list to the same list
 copied it after it had been moved or released

---
 Source/Collections/List.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index d46f7c2..4b78360 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -605,8 +605,10 @@ List
 			vint Insert(vint index, const T& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				// item could refer to an element in this list, which moves when making space
+				T copied(item);
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
+				memory_management::CallMoveCtors(&this->buffer[index], &copied, 1);
 				return index;
 			}
 
@@ -729,8 +731,10 @@ SortedList
 			vint Insert(vint index, const T& item)
 			{
 				bool uninitialized = false;
+				// item could refer to an element in this list, which moves when making space
+				T copied(item);
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
+				memory_management::CallMoveCtors(&this->buffer[index], &copied, 1);
 				return index;
 			}
 
-- 
2.43.0


From accc98df836519fcd82b5094602099e69084844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:47 +0000
Subject: [PATCH 06/28] fix: ObjectString::Sub and ObjectString::Remove
 accepted a negative count

---
 Source/Strings/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index 3e0f206..0430be1 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -462,7 +462,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -480,7 +480,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From f772db594426d1f891689ce8b0ac9f796a935ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:55 +0000
Subject: [PATCH 07/28] fix: assigning the value of a Nullable to itself read a
 destroyed object when the type is not assignable

---
 Source/Primitives/Nullable.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 1147677..94ba6bd 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -105,8 +105,10 @@ namespace vl
 				}
 			}
 
+			// value could be owned by the object that is going to be released
+			T copied(value);
 			Reset();
-			new (&object)T(value);
+			new (&object)T(std::move(copied));
 			initialized = true;
 			return *this;
 		}
@@ -125,8 +127,10 @@ namespace vl
 				}
 			}
 
+			// value could be owned by the object that is going to be released
+			T moved(std::move(value));
 			Reset();
-			new (&object)T(std::move(value));
+			new (&object)T(std::move(moved));
 			initialized = true;
 			return *this;
 		}
-- 
2.43.0


From c40c30fa2e7f275e3ffb8296cdd83bd92071e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:08 +0000
Subject: [PATCH 08/28] fix: assigning to a Variant from something owned by the
 element being released read a destroyed object

---
 Source/Primitives/Variant.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 2cfe3ae..adf4649 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -349,9 +349,11 @@ namespace vl
 				}
 				else
 				{
+					// variant could be owned by the element that is going to be released
+					Variant<TElements...> copied(variant);
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::CopyCtor(index, buffer, variant.buffer);
+					index = copied.index;
+					ElementPack::MoveCtor(index, buffer, copied.buffer);
 				}
 			}
 			return *this;
@@ -367,9 +369,11 @@ namespace vl
 				}
 				else
 				{
+					// variant could be owned by the element that is going to be released
+					Variant<TElements...> moved(std::move(variant));
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::MoveCtor(index, buffer, variant.buffer);
+					index = moved.index;
+					ElementPack::MoveCtor(index, buffer, moved.buffer);
 				}
 			}
 			return *this;
@@ -386,9 +390,11 @@ namespace vl
 			}
 			else
 			{
+				// element could be owned by the element that is going to be released
+				T copied(element);
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::CopyCtor(VariantIndex<i>{}, buffer, element);
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(copied));
 			}
 			return *this;
 		}
@@ -404,9 +410,11 @@ namespace vl
 			}
 			else
 			{
+				// element could be owned by the element that is going to be released
+				T moved(std::move(element));
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(element));
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(moved));
 			}
 			return *this;
 		}
@@ -420,9 +428,11 @@ namespace vl
 			}
 			else
 			{
+				// value could be owned by the element that is going to be released
+				TypeTupleElement<I, TypeTuple<TElements...>> created(std::forward<T&&>(value));
 				ElementPack::Dtor(index, buffer);
 				index = I;
-				ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				ElementPack::Ctor(i, buffer, std::move(created));
 			}
 			return *this;
 		}
-- 
2.43.0


From 06acf0050ebc253e40e2b446aed449f18102987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:03 +0000
Subject: [PATCH 09/28] fix: invoking an Event skipped or repeated callbacks
 when one of them attaches or detaches callbacks

---
 Source/Primitives/Event.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 7dfc3ed..16dec74 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -96,9 +96,19 @@ namespace vl
 		template<typename... TArgs2>
 		void operator()(TArgs2&& ...args)const
 		{
-			for(vint i = 0; i < handlers.Count(); i++)
+			// callbacks could be attached or detached during the invocation
+			collections::List<Ptr<EventHandlerImpl>> invoking;
+			for (vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				invoking.Add(handlers[i]);
+			}
+
+			for (vint i = 0; i < invoking.Count(); i++)
+			{
+				if (invoking[i]->attached)
+				{
+					invoking[i]->function(std::forward<TArgs2&&>(args)...);
+				}
 			}
 		}
 	};
-- 
2.43.0


From 1e8a11e53f3eaccd7ac8bc4986c995bbc2fba6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:03 +0000
Subject: [PATCH 10/28] fix: an rvalue argument of an Event was moved into the
 first callback

---
 Source/Primitives/Event.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 16dec74..a16cf25 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -44,6 +44,20 @@ namespace vl
 		};
  
 		collections::SortedList<Ptr<EventHandlerImpl>>	handlers;
+
+		// all callbacks receive the same argument, so it should not be moved to the first one
+		template<typename TArg, typename TArg2>
+		static decltype(auto) PassArgument(std::remove_reference_t<TArg2>& arg)
+		{
+			if constexpr (std::is_convertible_v<std::remove_reference_t<TArg2>&, TArg>)
+			{
+				return (arg);
+			}
+			else
+			{
+				return std::forward<TArg2>(arg);
+			}
+		}
 	public:
 		NOT_COPYABLE(Event);
 		Event() = default;
@@ -107,7 +121,7 @@ namespace vl
 			{
 				if (invoking[i]->attached)
 				{
-					invoking[i]->function(std::forward<TArgs2&&>(args)...);
+					invoking[i]->function(PassArgument<TArgs, TArgs2>(args)...);
 				}
 			}
 		}
-- 
2.43.0


From 2b2458c08a3fe479fb8fd8830eb35f37b97b5002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 11/28] fix: resetting an enumerator of a non-empty Dictionary
 or Group raised an error

---
 Source/Collections/Dictionary.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 11cac3b..999141c 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -35,7 +35,7 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if(index<container->Count())
+					if(0<=index && index<container->Count())
 					{
 						current = { container->Keys().Get(index),container->Values().Get(index) };
 					}
@@ -288,10 +288,10 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if (keyIndex < container->Count())
+					if (0 <= keyIndex && keyIndex < container->Count())
 					{
 						const ValueContainer& values = container->GetByIndex(keyIndex);
-						if (valueIndex < values.Count())
+						if (0 <= valueIndex && valueIndex < values.Count())
 						{
 							current = { container->Keys().Get(keyIndex) ,values.Get(valueIndex) };
 						}
-- 
2.43.0


From cb9d098481034d165921942c440dcb5bf891f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 12/28] fix: a cloned enumerator of a Dictionary or Group had
 no current element

---
 Source/Collections/Dictionary.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 999141c..0b95fdb 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -49,7 +49,9 @@ namespace vl
 				
 				IEnumerator<KVPair>* Clone()const override
 				{
-					return new Enumerator(container, index);
+					auto cloned = new Enumerator(container, index);
+					cloned->UpdateCurrent();
+					return cloned;
 				}
 
 				const KVPair& Current()const override
@@ -307,7 +309,9 @@ namespace vl
 				
 				IEnumerator<KVPair>* Clone()const override
 				{
-					return new Enumerator(container, keyIndex, valueIndex);
+					auto cloned = new Enumerator(container, keyIndex, valueIndex);
+					cloned->UpdateCurrent();
+					return cloned;
 				}
 
 				const KVPair& Current()const override
-- 
2.43.0


From 9f0a33cbf652862f708599fc84667ccf061b17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:25 +0000
Subject: [PATCH 13/28] fix: Group::Remove reported success when the value is
 not associated to the key

---
 Source/Collections/Dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 0b95fdb..77267b6 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -582,14 +582,14 @@ namespace vl
 				if(index!=-1)
 				{
 					auto target=values[index];
-					target->Remove(value);
+					bool removed=target->Remove(value);
 					if(target->Count()==0)
 					{
 						keys.RemoveAt(index);
 						values.RemoveAt(index);
 						delete target;
 					}
-					return true;
+					return removed;
 				}
 				else
 				{
-- 
2.43.0


From 886defdd52a03517f67922fa55f9b1671a6b9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:20 +0000
Subject: [PATCH 14/28] fix: taking no elements from a sequence with skipped
 elements produced one

---
 Source/Collections/OperationSequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index b0a1b4b..9ebc4ae 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -105,7 +105,7 @@ Skip
 
 			vint Index()const override
 			{
-				return enumerator->Index()-count;
+				return skipped ? enumerator->Index()-count : -1;
 			}
 
 			bool Next()override
-- 
2.43.0


From f21153f93fac05e76fcf285dbf675eeba45f124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:35 +0000
Subject: [PATCH 15/28] fix: decoding UTF-8 accepted encoded surrogates because
 the check was unreachable

---
 Source/Strings/Conversion.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/Conversion.cpp b/Source/Strings/Conversion.cpp
index 7675ad1..c114fe8 100644
--- a/Source/Strings/Conversion.cpp
+++ b/Source/Strings/Conversion.cpp
@@ -139,6 +139,7 @@ UtfConversion<char8_t>
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00001111U) << 12) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U));
+				if (IsInvalid(dest)) return -1;
 				return 3;
 			}
 			else if (cs[0] < 0b11111000U)
@@ -148,6 +149,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U));
+				if (IsInvalid(dest)) return -1;
 				return 4;
 			}
 			else if (cs[0] < 0b11111100U)
@@ -158,6 +160,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U));
+				if (IsInvalid(dest)) return -1;
 				return 5;
 			}
 			else
@@ -169,10 +172,9 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[5]) & 0b00111111U));
+				if (IsInvalid(dest)) return -1;
 				return 6;
 			}
-			if (IsInvalid(dest)) return -1;
-			return 1;
 		}
 
 /***********************************************************************
-- 
2.43.0


From 715faebbb3bbeaa5ea2fed98fad7c34fefc434d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:37 +0000
Subject: [PATCH 16/28] fix: wlower and wupper must not truncate wide
 characters to char

---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index f1f7204..5fa2a82 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -102,7 +102,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towlower(*buffer);
+			*buffer=(wchar_t)towlower(*buffer);
 			buffer++;
 		}
 	}
@@ -111,7 +111,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towupper(*buffer);
+			*buffer=(wchar_t)towupper(*buffer);
 			buffer++;
 		}
 	}
-- 
2.43.0


From dd30e0756f2ec23375b8e51778a8200626401549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:39 +0000
Subject: [PATCH 17/28] fix: an empty string is not a floating point number

---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index 5fa2a82..dfe0091 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -194,7 +194,7 @@ namespace vl
 	{
 		char* endptr = 0;
 		double result = strtod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
@@ -202,7 +202,7 @@ namespace vl
 	{
 		wchar_t* endptr = 0;
 		double result = wcstod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
-- 
2.43.0


From 4f027b30e725899562fe7f75874ddc99108dfa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:35 +0000
Subject: [PATCH 18/28] fix: UTC date time is off by an hour while daylight
 saving time is in effect

---
 Source/Primitives/DateTime.Linux.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index 8cd4277..fcc4553 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -98,6 +98,7 @@ DateTime
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
 			tm* timeinfo = gmtime(&tv.tv_sec);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
 		}
 
@@ -108,6 +109,7 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, milliseconds);
 		}
 
@@ -117,9 +119,7 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			time_t localTimer = mktime(localtime(&timer));
-			time_t utcTimer = mktime(gmtime(&timer));
-			timer += localTimer - utcTimer;
+			timer = timegm(localtime(&timer));
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
 			return osInternal;
-- 
2.43.0


From 02e767de8091d4b9f8b4ccb5f2e9cd149239650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:11 +0000
Subject: [PATCH 19/28] fix: copying a SortedList must not empty the source

---
 Source/Collections/List.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 4b78360..e5568fa 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -783,8 +783,9 @@ SortedList
 			SortedList<T>& operator=(SortedList<T> && _move) = default;
 
 			SortedList(const SortedList<T>&xs)
-				: ListBase<T>(std::move(const_cast<ListBase<T>&>(static_cast<const ListBase<T>&>(xs))))
 			{
+				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, 0, xs.count);
+				memory_management::CallCopyCtors(this->buffer, xs.buffer, xs.count);
 			}
 
 			/// <summary>Test does the list contain a value or not.</summary>
-- 
2.43.0


From 46eda83562cfc6589265d27770e07707a64bbbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:31 +0000
Subject: [PATCH 20/28] fix: ObjectString::Sub and ObjectString::Remove
 accepted a huge count because the sum overflowed

---
 Source/Strings/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index 0430be1..19d0843 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -462,7 +462,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -480,7 +480,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From 77bd73749e699db5ca5ee500035dac4e65e96827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:31 +0000
Subject: [PATCH 21/28] fix: taking the smallest integer number of elements
 overflowed and took all of them

---
 Source/Collections/OperationSequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index 9ebc4ae..cfd2fe3 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -54,7 +54,7 @@ Take
 
 			bool Next()override
 			{
-				if(enumerator->Index()>=count-1) return false;
+				if(enumerator->Index()+1>=count) return false;
 				return enumerator->Next();
 			}
 
-- 
2.43.0


From 282aeb0b996181fd88a9beff35df87f8425964fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:54 +0000
Subject: [PATCH 22/28] fix: comparing pairs or tuples of totally ordered
 elements has a total order

---
 Source/Basic.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/Basic.h b/Source/Basic.h
index 3f9c703..bc7dd33 100644
--- a/Source/Basic.h
+++ b/Source/Basic.h
@@ -252,6 +252,12 @@ Type Traits
 			using Type = std::partial_ordering;
 		};
 
+		template<>
+		struct OrderingSelection<false, false, true>
+		{
+			using Type = std::strong_ordering;
+		};
+
 		template<bool SO>
 		struct OrderingSelection<false, true, SO>
 		{
-- 
2.43.0


From a36291d151c69b204786417c0a348020151ee4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:58 +0000
Subject: [PATCH 23/28] fix: PushOnlyAllocator::Get returned a pointer outside
 the storage for a negative index

---
 Source/Collections/List.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index e5568fa..d31c4ff 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -870,7 +870,7 @@ Special Containers
 
 			T* Get(vint index)
 			{
-				if (index >= allocatedSize)
+				if (index < 0 || index >= allocatedSize)
 				{
 					return 0;
 				}
-- 
2.43.0


From 478a76902e64bed2001be1eff717f2aa2d22517b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:41 +0000
Subject: [PATCH 24/28] fix: date time on Linux kept its result in storage
 shared by all threads

---
 Source/Primitives/DateTime.Linux.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index fcc4553..fece1ba 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -81,25 +81,28 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = localtime(&timer);
-			return ConvertTMToDateTime(timeinfo, milliseconds);
+			tm timeinfo;
+			localtime_r(&timer, &timeinfo);
+			return ConvertTMToDateTime(&timeinfo, milliseconds);
 		}
 
 		vuint64_t LocalTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = localtime(&tv.tv_sec);
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo;
+			localtime_r(&tv.tv_sec, &timeinfo);
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t UtcTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = gmtime(&tv.tv_sec);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo;
+			gmtime_r(&tv.tv_sec, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t LocalToUtcTime(vuint64_t osInternal) override
@@ -108,9 +111,10 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = gmtime(&timer);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, milliseconds);
+			tm timeinfo;
+			gmtime_r(&timer, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			return ConvertTMTToOSInternal(&timeinfo, milliseconds);
 		}
 
 		vuint64_t UtcToLocalTime(vuint64_t osInternal) override
@@ -119,7 +123,9 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			timer = timegm(localtime(&timer));
+			tm timeinfo;
+			localtime_r(&timer, &timeinfo);
+			timer = timegm(&timeinfo);
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
 			return osInternal;
-- 
2.43.0


From fe43f3b5ae13728ebe30f364bd1034dd6b70fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:52 +0000
Subject: [PATCH 25/28] fix: a filler paragraph always ends with a period, not
 with a separator

---
 Source/Strings/LoremIpsum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Strings/LoremIpsum.cpp b/Source/Strings/LoremIpsum.cpp
index 8e8d555..5b0ec83 100644
--- a/Source/Strings/LoremIpsum.cpp
+++ b/Source/Strings/LoremIpsum.cpp
@@ -140,7 +140,7 @@ namespace vl
 			}
 
 			result += LoremIpsum(length, casing);
-			if (comma == 0)
+			if (comma == 0 || result.Length() + 2 >= bestLength)
 			{
 				result += L".";
 				break;
-- 
2.43.0


From 82a21e8176018117255dcc93cb7a76a8be202638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:08 +0000
Subject: [PATCH 26/28] fix: assigning a collection from one owned by its own
 element read released memory

---
 Source/Collections/Dictionary.h |  6 ++++--
 Source/Collections/List.h       | 26 ++++++++++++++++----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 77267b6..af26d8e 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -416,9 +416,11 @@ namespace vl
 			Group<KT, VT>& operator=(const Group<KT, VT>&) = delete;
 			Group<KT, VT>& operator=(Group<KT, VT> && _move)
 			{
+				// _move could be owned by a value that is going to be released
+				Group<KT, VT> moved(std::move(_move));
 				Clear();
-				keys = std::move(_move.keys);
-				values = std::move(_move.values);
+				keys = std::move(moved.keys);
+				values = std::move(moved.values);
 				return*this;
 			}
 
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index d31c4ff..320402d 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -357,15 +357,18 @@ Array
 			Array<T>& operator=(const Array<T>&) = delete;
 			Array<T>& operator=(Array<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element that is going to be released
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				_move.buffer = nullptr;
 				_move.count = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
@@ -487,17 +490,20 @@ ListBase
 			ListBase<T>& operator=(const ListBase<T>&) = delete;
 			ListBase<T>& operator=(ListBase<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element that is going to be released
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				this->capacity = _move.capacity;
 				_move.buffer = nullptr;
 				_move.count = 0;
 				_move.capacity = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
-- 
2.43.0


From 57d295af6cb0879b66232bb5548b07f87186dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:08 +0000
Subject: [PATCH 27/28] fix: moving an element of a list into the same list
 read it after it had been moved or released

---
 Source/Collections/List.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 320402d..f00f72c 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -625,8 +625,10 @@ List
 			vint Insert(vint index, T&& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				// item could refer to an element in this list, which moves when making space
+				T moved(std::move(item));
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallMoveCtors(&this->buffer[index], &item, 1);
+				memory_management::CallMoveCtors(&this->buffer[index], &moved, 1);
 				return index;
 			}
 
-- 
2.43.0


From d503da4c9d20a103b7e651ce6405feaa59b8814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:27 +0000
Subject: [PATCH 28/28] fix: assigning a Nullable from one owned by its own
 value read a destroyed object

---
 Source/Primitives/Nullable.h | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 94ba6bd..d1793b0 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -146,18 +146,7 @@ namespace vl
 			}
 			else if (this != &nullable)
 			{
-				if constexpr (std::is_copy_assignable_v<T>)
-				{
-					if (initialized)
-					{
-						object = nullable.object;
-						return *this;
-					}
-				}
-
-				Reset();
-				new (&object)T(nullable.object);
-				initialized = true;
+				operator=(nullable.object);
 			}
 			return *this;
 		}
@@ -173,20 +162,10 @@ namespace vl
 			}
 			else if (this != &nullable)
 			{
-				if constexpr (std::is_move_assignable_v<T>)
-				{
-					if (initialized)
-					{
-						object = std::move(nullable.object);
-						nullable.Reset();
-						return *this;
-					}
-				}
-
-				Reset();
-				new (&object)T(std::move(nullable.object));
+				// nullable could be owned by the object that is going to be released
+				T moved(std::move(nullable.object));
 				nullable.Reset();
-				initialized = true;
+				operator=(std::move(moved));
 			}
 			return *this;
 		}
-- 
2.43.0

