------------------------------- MODULE Hashes -------------------------------
(* Hash functions of the storage format. The definitions are replaced by the *)
(* Java methods in java/Hashes.java (standard Blake2b-128 and xxHash64).      *)
Blake128(b) == <<>>
Twox64(b) == <<>>
Blake512(b) == <<>>
(* A byte sequence in UTF-8 as a TLA+ string.                                *)
Utf8Str(b) == ""
=============================================================================
