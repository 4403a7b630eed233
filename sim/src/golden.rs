//! What an earlier release produced (the constants of ffi/src/c.rs's own tests, copied at the time of writing).
pub const SYSTEM_PARAMETERS: &str = "e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d766a9192e22167b171783edc442d1debea35c8c62cd27be25ccdd0cb887fc41b53";
pub const ISSUER_PARAMETERS: &str = "2e0f3b5ae7f047da859cf245a6b15853f3c2820ea950ce8e7df1bb40336ba92f";
pub const ISSUER_KEYPAIR: &str = "2e0f3b5ae7f047da859cf245a6b15853f3c2820ea950ce8e7df1bb40336ba92f36e5b43419551a92c809a995a3d2c817a86ce8f5dd973b06fe9cb5a3f012870b6102398efee33b886f4bb7042b897d83db59b71a05aff76e9b633b87cade7d00";
pub const USER_WITH_CREDENTIAL: &str = "0f0f01040105050505010203040f0f0b00000000000000000000000000000000e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d766a9192e22167b171783edc442d1debea35c8c62cd27be25ccdd0cb887fc41b532e0f3b5ae7f047da859cf245a6b15853f3c2820ea950ce8e7df1bb40336ba92f000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000007a4c6b1401498af238127926c700ce40f31e4edebd8261bad472575a42d2503f74aaffe3dbcfd21f934c82269ffc391d62dde5924ce24186e40819860b97593c0f0f01040105050505010203040f0f0b00000000000000000000000000000000";
pub const ISSUANCE: &str = "f415c4edbf3bd28fe546bd009d7da3feb7932625227541ac6686dd0a0c92ce487a4c6b1401498af238127926c700ce40f31e4edebd8261bad472575a42d2503f74aaffe3dbcfd21f934c82269ffc391d62dde5924ce24186e40819860b97593c0f0f01040105050505010203040f0f0b000000000000000000000000000000002000000000000000313c4d704eb2465ed08dc0dd368f94f87d958761a32f7e3f85496b46d29d93002000000000000000afe729639b2ceaa5be7144a61de572591ef4569239a0373cf64313836deb1f0e20000000000000005ccdd912fc8518a4f0d8241acbc60d3d66e29075acdb456565fa2d55534a55022000000000000000edade97fe6f696b90a70ead57848d246acc21e5e1536ddee3762215c6fcd0c0120000000000000008da2494ece79cc57675113e66b180e556f0b10927fee1c2f2a10d543551b7503";
pub const PRESENTATION: &str = "f8a397630fd3b89262b9b9ea510b4d1dd512042c7e7502381e349bd4b555f22692422cb20c77603969c23a613b0e6d4f67ca618086a7becf73328ead3273f7227042ff223c0b67f14b9291fc8d8c524dce9ef803abd624a37b8364cebf8bc91f8eae2f6355bf4f9da5d60cbe227e9484f9c74b99091ce78733eaaae6ba96d10e200000000000000078a38febf3029b66b08c960999699ffafa5e62f343792489cbb5b5db4f32b9052000000000000000ee4ede2d590cbfa3cf1cca509c44c832d87b34383c15e9571abdc32d44d4d30020000000000000001692371b4bf5ff8905b0ab82137ba5159ba547d06ecd0ad47b60a4fd1816bd03200000000000000057145c886c6a8d0fed3352dc7d3dfc4385011a52c9496f21e0135412e59bf0092000000000000000f6e32c9bac141e7d06cb5fca76cd716af65ce37bb49af8bfec72aaa4e831850220000000000000001e22f7d505f414070da5bbfc77cd02bb10abe69688020a1d89a6d3a716afc2042000000000000000b8ccd505c888821a155e03ec18f2d1c4f494fa930a9b196f04dc014302a03d0f200000000000000087722dd73376fd12232a7c6da4b53098163a9130b54b97ba3185d5628a63530b";
