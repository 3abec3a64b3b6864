---------------------------- MODULE RecordFileMC ----------------------------
EXTENDS RecordFile
\* Empty records, and ones that look like headers.
MCPayloads == {<<>>, <<0>>, <<1>>, <<2, 1>>, <<1, 0, 1>>}
==============================================================================
