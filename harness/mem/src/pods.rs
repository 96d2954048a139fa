// Every structure the crate casts to and from bytes, as (type, name).
macro_rules! all_pods { ($m:ident) => {
    $m!(object::archive::Header);
    $m!(object::archive::AixHeader);
    $m!(object::archive::AixFileHeader);
    $m!(object::archive::AixMemberOffset);
    $m!(object::macho::FatHeader);
    $m!(object::macho::FatArch32);
    $m!(object::macho::FatArch64);
    $m!(object::macho::DyldCacheHeader<object::BigEndian>);
    $m!(object::macho::DyldCacheMappingInfo<object::BigEndian>);
    $m!(object::macho::DyldCacheMappingAndSlideInfo<object::BigEndian>);
    $m!(object::macho::DyldCacheTproMappingInfo<object::BigEndian>);
    $m!(object::macho::DyldCacheImageInfo<object::BigEndian>);
    $m!(object::macho::DyldCacheSlideInfo2<object::BigEndian>);
    $m!(object::macho::DyldCacheSlideInfo3<object::BigEndian>);
    $m!(object::macho::DyldCacheSlideInfo5<object::BigEndian>);
    $m!(object::macho::DyldSubCacheEntryV1<object::BigEndian>);
    $m!(object::macho::DyldSubCacheEntryV2<object::BigEndian>);
    $m!(object::macho::MachHeader32<object::BigEndian>);
    $m!(object::macho::MachHeader64<object::BigEndian>);
    $m!(object::macho::LoadCommand<object::BigEndian>);
    $m!(object::macho::LcStr<object::BigEndian>);
    $m!(object::macho::SegmentCommand32<object::BigEndian>);
    $m!(object::macho::SegmentCommand64<object::BigEndian>);
    $m!(object::macho::Section32<object::BigEndian>);
    $m!(object::macho::Section64<object::BigEndian>);
    $m!(object::macho::Fvmlib<object::BigEndian>);
    $m!(object::macho::FvmlibCommand<object::BigEndian>);
    $m!(object::macho::Dylib<object::BigEndian>);
    $m!(object::macho::DylibCommand<object::BigEndian>);
    $m!(object::macho::DylibUseCommand<object::BigEndian>);
    $m!(object::macho::SubFrameworkCommand<object::BigEndian>);
    $m!(object::macho::SubClientCommand<object::BigEndian>);
    $m!(object::macho::SubUmbrellaCommand<object::BigEndian>);
    $m!(object::macho::SubLibraryCommand<object::BigEndian>);
    $m!(object::macho::PreboundDylibCommand<object::BigEndian>);
    $m!(object::macho::DylinkerCommand<object::BigEndian>);
    $m!(object::macho::ThreadCommand<object::BigEndian>);
    $m!(object::macho::RoutinesCommand32<object::BigEndian>);
    $m!(object::macho::RoutinesCommand64<object::BigEndian>);
    $m!(object::macho::SymtabCommand<object::BigEndian>);
    $m!(object::macho::DysymtabCommand<object::BigEndian>);
    $m!(object::macho::DylibTableOfContents<object::BigEndian>);
    $m!(object::macho::DylibModule32<object::BigEndian>);
    $m!(object::macho::DylibModule64<object::BigEndian>);
    $m!(object::macho::DylibReference<object::BigEndian>);
    $m!(object::macho::TwolevelHintsCommand<object::BigEndian>);
    $m!(object::macho::TwolevelHint<object::BigEndian>);
    $m!(object::macho::PrebindCksumCommand<object::BigEndian>);
    $m!(object::macho::UuidCommand<object::BigEndian>);
    $m!(object::macho::RpathCommand<object::BigEndian>);
    $m!(object::macho::TargetTripleCommand<object::BigEndian>);
    $m!(object::macho::LinkeditDataCommand<object::BigEndian>);
    $m!(object::macho::EncryptionInfoCommand32<object::BigEndian>);
    $m!(object::macho::EncryptionInfoCommand64<object::BigEndian>);
    $m!(object::macho::VersionMinCommand<object::BigEndian>);
    $m!(object::macho::BuildVersionCommand<object::BigEndian>);
    $m!(object::macho::BuildToolVersion<object::BigEndian>);
    $m!(object::macho::DyldInfoCommand<object::BigEndian>);
    $m!(object::macho::DyldChainedFixupsHeader<object::BigEndian>);
    $m!(object::macho::DyldChainedStartsInImage<object::BigEndian>);
    $m!(object::macho::DyldChainedStartsInSegment<object::BigEndian>);
    $m!(object::macho::DyldChainedStartsOffsets<object::BigEndian>);
    $m!(object::macho::LinkerOptionCommand<object::BigEndian>);
    $m!(object::macho::SymsegCommand<object::BigEndian>);
    $m!(object::macho::IdentCommand<object::BigEndian>);
    $m!(object::macho::FvmfileCommand<object::BigEndian>);
    $m!(object::macho::EntryPointCommand<object::BigEndian>);
    $m!(object::macho::SourceVersionCommand<object::BigEndian>);
    $m!(object::macho::DataInCodeEntry<object::BigEndian>);
    $m!(object::macho::NoteCommand<object::BigEndian>);
    $m!(object::macho::FilesetEntryCommand<object::BigEndian>);
    $m!(object::macho::Nlist32<object::BigEndian>);
    $m!(object::macho::Nlist64<object::BigEndian>);
    $m!(object::macho::Relocation<object::BigEndian>);
    $m!(object::macho::CsBlobIndex);
    $m!(object::macho::CsSuperBlob);
    $m!(object::macho::CsCodeDirectoryV0);
    $m!(object::macho::CsCodeDirectoryV1);
    $m!(object::macho::CsCodeDirectoryV2);
    $m!(object::macho::CsCodeDirectoryV3);
    $m!(object::macho::CsCodeDirectoryV4);
    $m!(object::macho::CsGenericBlob);
    $m!(object::macho::CsScatter);
    $m!(object::elf::FileHeader32<object::BigEndian>);
    $m!(object::elf::FileHeader64<object::BigEndian>);
    $m!(object::elf::SectionHeader32<object::BigEndian>);
    $m!(object::elf::SectionHeader64<object::BigEndian>);
    $m!(object::elf::CompressionHeader32<object::BigEndian>);
    $m!(object::elf::CompressionHeader64<object::BigEndian>);
    $m!(object::elf::Sym32<object::BigEndian>);
    $m!(object::elf::Sym64<object::BigEndian>);
    $m!(object::elf::Syminfo32<object::BigEndian>);
    $m!(object::elf::Syminfo64<object::BigEndian>);
    $m!(object::elf::Rel32<object::BigEndian>);
    $m!(object::elf::Rel64<object::BigEndian>);
    $m!(object::elf::Rela32<object::BigEndian>);
    $m!(object::elf::Rela64<object::BigEndian>);
    $m!(object::elf::Relr32<object::BigEndian>);
    $m!(object::elf::Relr64<object::BigEndian>);
    $m!(object::elf::ProgramHeader32<object::BigEndian>);
    $m!(object::elf::ProgramHeader64<object::BigEndian>);
    $m!(object::elf::Dyn32<object::BigEndian>);
    $m!(object::elf::Dyn64<object::BigEndian>);
    $m!(object::elf::Versym<object::BigEndian>);
    $m!(object::elf::Verdef<object::BigEndian>);
    $m!(object::elf::Verdaux<object::BigEndian>);
    $m!(object::elf::Verneed<object::BigEndian>);
    $m!(object::elf::Vernaux<object::BigEndian>);
    $m!(object::elf::NoteHeader32<object::BigEndian>);
    $m!(object::elf::NoteHeader64<object::BigEndian>);
    $m!(object::elf::HashHeader<object::BigEndian>);
    $m!(object::elf::GnuHashHeader<object::BigEndian>);
    $m!(object::xcoff::FileHeader32);
    $m!(object::xcoff::FileHeader64);
    $m!(object::xcoff::AuxHeader32);
    $m!(object::xcoff::AuxHeader64);
    $m!(object::xcoff::SectionHeader32);
    $m!(object::xcoff::SectionHeader64);
    $m!(object::xcoff::SymbolBytes);
    $m!(object::xcoff::Symbol32);
    $m!(object::xcoff::Symbol64);
    $m!(object::xcoff::FileAux32);
    $m!(object::xcoff::FileAux64);
    $m!(object::xcoff::CsectAux32);
    $m!(object::xcoff::CsectAux64);
    $m!(object::xcoff::FunAux32);
    $m!(object::xcoff::FunAux64);
    $m!(object::xcoff::ExpAux);
    $m!(object::xcoff::BlockAux32);
    $m!(object::xcoff::BlockAux64);
    $m!(object::xcoff::StatAux);
    $m!(object::xcoff::DwarfAux32);
    $m!(object::xcoff::DwarfAux64);
    $m!(object::xcoff::Rel32);
    $m!(object::xcoff::Rel64);
    $m!(object::pe::ImageDosHeader);
    $m!(object::pe::ImageOs2Header);
    $m!(object::pe::ImageVxdHeader);
    $m!(object::pe::ImageFileHeader);
    $m!(object::pe::ImageDataDirectory);
    $m!(object::pe::ImageOptionalHeader32);
    $m!(object::pe::ImageRomOptionalHeader);
    $m!(object::pe::ImageOptionalHeader64);
    $m!(object::pe::ImageNtHeaders64);
    $m!(object::pe::ImageNtHeaders32);
    $m!(object::pe::ImageRomHeaders);
    $m!(object::pe::Guid);
    $m!(object::pe::AnonObjectHeader);
    $m!(object::pe::AnonObjectHeaderV2);
    $m!(object::pe::AnonObjectHeaderBigobj);
    $m!(object::pe::ImageSectionHeader);
    $m!(object::pe::ImageSymbol);
    $m!(object::pe::ImageSymbolBytes);
    $m!(object::pe::ImageSymbolEx);
    $m!(object::pe::ImageSymbolExBytes);
    $m!(object::pe::ImageAuxSymbolTokenDef);
    $m!(object::pe::ImageAuxSymbolFunction);
    $m!(object::pe::ImageAuxSymbolFunctionBeginEnd);
    $m!(object::pe::ImageAuxSymbolWeak);
    $m!(object::pe::ImageAuxSymbolSection);
    $m!(object::pe::ImageAuxSymbolCrc);
    $m!(object::pe::ImageRelocation);
    $m!(object::pe::ImageLinenumber);
    $m!(object::pe::ImageBaseRelocation);
    $m!(object::pe::ImageArchiveMemberHeader);
    $m!(object::pe::ImageExportDirectory);
    $m!(object::pe::ImageImportByName);
    $m!(object::pe::ImageThunkData64);
    $m!(object::pe::ImageThunkData32);
    $m!(object::pe::ImageTlsDirectory64);
    $m!(object::pe::ImageTlsDirectory32);
    $m!(object::pe::ImageImportDescriptor);
    $m!(object::pe::ImageBoundImportDescriptor);
    $m!(object::pe::ImageBoundForwarderRef);
    $m!(object::pe::ImageDelayloadDescriptor);
    $m!(object::pe::ImageResourceDirectory);
    $m!(object::pe::ImageResourceDirectoryEntry);
    $m!(object::pe::ImageResourceDirectoryString);
    $m!(object::pe::ImageResourceDirStringU);
    $m!(object::pe::ImageResourceDataEntry);
    $m!(object::pe::ImageLoadConfigCodeIntegrity);
    $m!(object::pe::ImageDynamicRelocationTable);
    $m!(object::pe::ImageDynamicRelocation32);
    $m!(object::pe::ImageDynamicRelocation64);
    $m!(object::pe::ImageDynamicRelocation32V2);
    $m!(object::pe::ImageDynamicRelocation64V2);
    $m!(object::pe::ImagePrologueDynamicRelocationHeader);
    $m!(object::pe::ImageEpilogueDynamicRelocationHeader);
    $m!(object::pe::ImageLoadConfigDirectory32);
    $m!(object::pe::ImageLoadConfigDirectory64);
    $m!(object::pe::ImageHotPatchInfo);
    $m!(object::pe::ImageHotPatchBase);
    $m!(object::pe::ImageHotPatchHashes);
    $m!(object::pe::ImageArmRuntimeFunctionEntry);
    $m!(object::pe::ImageArm64RuntimeFunctionEntry);
    $m!(object::pe::ImageAlpha64RuntimeFunctionEntry);
    $m!(object::pe::ImageAlphaRuntimeFunctionEntry);
    $m!(object::pe::ImageRuntimeFunctionEntry);
    $m!(object::pe::ImageEnclaveConfig32);
    $m!(object::pe::ImageEnclaveConfig64);
    $m!(object::pe::ImageEnclaveImport);
    $m!(object::pe::ImageDebugDirectory);
    $m!(object::pe::ImageCoffSymbolsHeader);
    $m!(object::pe::ImageDebugMisc);
    $m!(object::pe::ImageFunctionEntry);
    $m!(object::pe::ImageFunctionEntry64);
    $m!(object::pe::ImageSeparateDebugHeader);
    $m!(object::pe::NonPagedDebugInfo);
    $m!(object::pe::ImageArchitectureEntry);
    $m!(object::pe::ImportObjectHeader);
    $m!(object::pe::ImageCor20Header);
    $m!(object::pe::MaskedRichHeaderEntry);
}}
