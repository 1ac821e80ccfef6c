ref("verify-helper", "C01 C02", M, ("""		case *Metadata[RootType]:
			for _, signature := range d.Signatures {
				if signature.KeyID == keyID {
					sign = signature
				}
			}
""", """		case *Metadata[RootType]:
			sign = signatureOf(d.Signatures, keyID)
"""), ("""		case *Metadata[SnapshotType]:
			for _, signature := range d.Signatures {
				if signature.KeyID == keyID {
					sign = signature
				}
			}
""", """		case *Metadata[SnapshotType]:
			sign = signatureOf(d.Signatures, keyID)
"""), end="""
// signatureOf returns the signature made with the given key, if any
func signatureOf(signatures []Signature, keyID string) Signature {
	res := Signature{}
	for i := range signatures {
		if signatures[i].KeyID != keyID {
			continue
		}
		res = signatures[i]
	}
	return res
}
""")
ref("verify-index-loop", "C01 C05", M, ("""	for _, keyID := range roleKeyIDs {
		key, ok := keys[keyID]
		if !ok {""", """	for n := 0; n < len(roleKeyIDs); n++ {
		keyID := roleKeyIDs[n]
		key, ok := keys[keyID]
		if !ok {"""), ("""		sign := Signature{}
		var payload []byte
		// convert to a PublicKey type
		publicKey, err := key.ToPublicKey()
		if err != nil {
			return err
		}
""", """		// convert to a PublicKey type
		publicKey, err := key.ToPublicKey()
		if err != nil {
			return err
		}
		var payload []byte
		sign := Signature{}
"""))
ref("snapshot-helper", "C04 C27 C06", T, ("""	if trusted.Snapshot != nil {
		for name, info := range trusted.Snapshot.Signed.Meta {
			newFileInfo, ok := newSnapshot.Signed.Meta[name]
			// prevent removal of any metadata in meta
			if !ok {
				return nil, metadata.ErrRepository{Msg: fmt.Sprintf("new snapshot is missing info for %s", name)}
			}
			// prevent rollback of any metadata versions
			if newFileInfo.Version < info.Version {
				return nil, metadata.ErrBadVersionNumber{Msg: fmt.Sprintf("expected %s version %d, got %d", name, newFileInfo.Version, info.Version)}
			}
		}
	}
""", """	if trusted.Snapshot != nil {
		if err := checkRollback(trusted.Snapshot.Signed.Meta, newSnapshot.Signed.Meta); err != nil {
			return nil, err
		}
	}
"""), end="""
// checkRollback makes sure no file disappears and no version goes down
func checkRollback(before, after map[string]*metadata.MetaFiles) error {
	for name, info := range before {
		if newFileInfo, ok := after[name]; !ok {
			return metadata.ErrRepository{Msg: fmt.Sprintf("new snapshot is missing info for %s", name)}
		} else if newFileInfo.Version < info.Version {
			return metadata.ErrBadVersionNumber{Msg: fmt.Sprintf("expected %s version %d, got %d", name, newFileInfo.Version, info.Version)}
		}
	}
	return nil
}
""")
ref("timestamp-reorder", "C03 C27", T, ("""		// prevent rolling back timestamp version
		if newTimestamp.Signed.Version < trusted.Timestamp.Signed.Version {
			return nil, metadata.ErrBadVersionNumber{Msg: fmt.Sprintf("new timestamp version %d must be >= %d", newTimestamp.Signed.Version, trusted.Timestamp.Signed.Version)}
		}
		// keep using old timestamp if versions are equal
		if newTimestamp.Signed.Version == trusted.Timestamp.Signed.Version {
			log.Info""", """		oldVersion, newVersion := trusted.Timestamp.Signed.Version, newTimestamp.Signed.Version
		switch {
		case newVersion < oldVersion:
			return nil, metadata.ErrBadVersionNumber{Msg: fmt.Sprintf("new timestamp version %d must be >= %d", newVersion, oldVersion)}
		case newVersion == oldVersion:
			log.Info"""))
ref("delegated-path", "C11", M, ("""	if len(role.Paths) > 0 {
		// standard delegations
		for _, pathPattern := range role.Paths {
			//  A delegated role path may be an explicit path or glob
			//  pattern (Unix shell-style wildcards).
			if isTargetInPathPattern(targetFilepath, pathPattern) {
				return true, nil
			}
		}
	} else if""", """	if len(role.Paths) > 0 {
		return anyPattern(role.Paths, targetFilepath), nil
	}
	if"""), ("""		targetFilepathHash := sha256.Sum256([]byte(targetFilepath))
		for _, pathHashPrefix := range role.PathHashPrefixes {
			if strings.HasPrefix(base64.URLEncoding.EncodeToString(targetFilepathHash[:]), pathHashPrefix) {
""", """		targetFilepathHash := sha256.Sum256([]byte(targetFilepath))
		encoded := base64.URLEncoding.EncodeToString(targetFilepathHash[:])
		for i := 0; i < len(role.PathHashPrefixes); i++ {
			if strings.HasPrefix(encoded, role.PathHashPrefixes[i]) {
"""), end="""
// anyPattern tells whether one of the patterns matches
func anyPattern(patterns []string, target string) bool {
	matched := false
	for _, pattern := range patterns {
		if isTargetInPathPattern(target, pattern) {
			matched = true
			break
		}
	}
	return matched
}
""")
ref("revoke-first", "C19", M, ("""	// remove keyID from role
	filteredKeyIDs := []string{}
	for _, k := range signed.Roles[role].KeyIDs {
		if k != keyID {
			filteredKeyIDs = append(filteredKeyIDs, k)
		}
	}
	// overwrite the old keyID slice
	signed.Roles[role].KeyIDs = filteredKeyIDs
	// check if keyID is used by other roles too
	for _, r := range signed.Roles {
		if slices.Contains(r.KeyIDs, keyID) {
			return nil
		}
	}
	// delete the keyID from Keys if it's not used anywhere else
	delete(signed.Keys, keyID)
	return nil
""", """	// remove keyID from role
	entry := signed.Roles[role]
	entry.KeyIDs = without(entry.KeyIDs, keyID)
	// check if keyID is used by other roles too
	used := false
	for _, r := range signed.Roles {
		used = used || slices.Contains(r.KeyIDs, keyID)
	}
	if !used {
		// delete the keyID from Keys if it's not used anywhere else
		delete(signed.Keys, keyID)
	}
	return nil
"""), end="""
// without returns the key ids except the given one
func without(keyIDs []string, keyID string) []string {
	res := []string{}
	for _, k := range keyIDs {
		if k == keyID {
			continue
		}
		res = append(res, k)
	}
	return res
}
""")
ref("download-reorder", "C10 C18", U, ("""	var err error
	if filePath == "" {
		filePath, err = update.generateTargetFilePath(targetFile)
		if err != nil {
			return "", nil, err
		}
	}
	if targetBaseURL == "" {
		if update.cfg.RemoteTargetsURL == "" {
			return "", nil, metadata.ErrValue{Msg: "targetBaseURL must be set in either DownloadTarget() or the Updater struct"}
		}
		targetBaseURL = ensureTrailingSlash(update.cfg.RemoteTargetsURL)
	} else {
		targetBaseURL = ensureTrailingSlash(targetBaseURL)
	}
""", """	var err error
	if targetBaseURL == "" {
		targetBaseURL = update.cfg.RemoteTargetsURL
	}
	if targetBaseURL == "" {
		return "", nil, metadata.ErrValue{Msg: "targetBaseURL must be set in either DownloadTarget() or the Updater struct"}
	}
	targetBaseURL = ensureTrailingSlash(targetBaseURL)
	if filePath == "" {
		filePath, err = update.generateTargetFilePath(targetFile)
		if err != nil {
			return "", nil, err
		}
	}
"""), ("""	err = targetFile.VerifyLengthHashes(data)
	if err != nil {
		return "", nil, err
	}

	// do not persist the target file if cache is disabled
	if !update.cfg.DisableLocalCache {
		err = os.WriteFile(filePath, data, 0644)
		if err != nil {
			return "", nil, err
		}
	}
	log.Info("Downloaded target", "path", targetFile.Path)
	return filePath, data, nil
""", """	if err := targetFile.VerifyLengthHashes(data); err != nil {
		return "", nil, err
	}
	if err := update.storeTarget(filePath, data); err != nil {
		return "", nil, err
	}
	log.Info("Downloaded target", "path", targetFile.Path)
	return filePath, data, nil
"""), end="""
// storeTarget writes a target file unless the cache is disabled
func (update *Updater) storeTarget(filePath string, data []byte) error {
	if update.cfg.DisableLocalCache {
		return nil
	}
	return os.WriteFile(filePath, data, 0644)
}
""")
ref("persist-helper", "C14 C15 C16", U, ("""		// delete the temporary file if there was an error while writing
		errRemove := os.Remove(file.Name())
		if errRemove != nil {
			log.Info("Failed to delete temporary file", "name", file.Name())
		}
		return err
""", """		removeTemporary(file.Name())
		return err
"""), ("""		// delete the temporary file if it could not be renamed
		errRemove := os.Remove(file.Name())
		if errRemove != nil {
			log.Info("Failed to delete temporary file", "name", file.Name())
		}
		return err
""", """		removeTemporary(file.Name())
		return err
"""), ("""	log := metadata.GetLogger()
	// do not persist the metadata if we have disabled local caching
""", """	// do not persist the metadata if we have disabled local caching
"""), end="""
// removeTemporary deletes a temporary file
func removeTemporary(name string) {
	if err := os.Remove(name); err != nil {
		metadata.GetLogger().Info("Failed to delete temporary file", "name", name)
	}
}
""")
ref("root-loop", "C15 C18", U, ("""	for nextVersion := lowerBound; nextVersion < upperBound; nextVersion++ {
""", """	nextVersion := lowerBound
	for {
		if nextVersion >= upperBound {
			return nil
		}
"""), ("""				// 404/403 means current root is newest available, so we can stop the loop and move forward
				break
""", """				// 404/403 means current root is newest available, so we can stop the loop and move forward
				return nil
"""), ("""			err = update.persistMetadata(metadata.ROOT, data)
			if err != nil {
				return err
			}
		}
	}
	return nil
}
""", """			err = update.persistMetadata(metadata.ROOT, data)
			if err != nil {
				return err
			}
		}
		nextVersion++
	}
}
"""))
ref("targets-helper", "C14 C15 C18", U, ("""	if update.trusted.Snapshot == nil {
		return nil, fmt.Errorf("trusted snapshot not set")
	}
	// extract the targets meta from the trusted snapshot metadata
	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[fmt.Sprintf("%s.json", roleName)]
	if !ok {
		return nil, metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
	}
	// extract the length of the target metadata to be downloaded
	length := metaInfo.Length
	if length == 0 {
		length = update.cfg.TargetsMaxLength
	}
	// extract which target metadata version should be downloaded in case of consistent snapshots
	version := ""
	if update.trusted.Root.Signed.ConsistentSnapshot {
		version = strconv.FormatInt(metaInfo.Version, 10)
	}
""", """	length, version, err := update.targetsInfo(roleName)
	if err != nil {
		return nil, err
	}
"""), end="""
// targetsInfo returns how much of which version of a role's metadata is to be downloaded
func (update *Updater) targetsInfo(roleName string) (int64, string, error) {
	if update.trusted.Snapshot == nil {
		return 0, "", fmt.Errorf("trusted snapshot not set")
	}
	metaInfo, ok := update.trusted.Snapshot.Signed.Meta[roleName+".json"]
	if !ok {
		return 0, "", metadata.ErrRepository{Msg: fmt.Sprintf("snapshot does not contain information for %s", roleName)}
	}
	version := ""
	if update.trusted.Root.Signed.ConsistentSnapshot {
		version = strconv.FormatInt(metaInfo.Version, 10)
	}
	if metaInfo.Length == 0 {
		return update.cfg.TargetsMaxLength, version, nil
	}
	return metaInfo.Length, version, nil
}
""")
ref("multirepo-reorder", "C23", R, ("""					var result *targetMatch
					for i, target := range matchedTargetGroups {
						// compare thresholds for each target info we found with the value stated for its mapping
						if len(target.repositories) >= eachMap.Threshold {
							// this target has enough repositories signed for it
							if result != nil {
								// it seems there's more than one target info matching the threshold for this mapping
								// it is a conflict since it's impossible to establish a consensus which of the found targets
								// we should actually trust, so we error out
								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
							} else {
								// this is the first target we found matching the necessary threshold so save it
								result = &matchedTargetGroups[i]
							}
						}
					}
""", """					var result *targetMatch
					for i := 0; i < len(matchedTargetGroups); i++ {
						target := &matchedTargetGroups[i]
						if len(target.repositories) < eachMap.Threshold {
							continue
						}
						if result != nil {
							return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
						}
						result = target
					}
"""), ("""			if err != nil {
				// error looking for a match
				return nil, nil, err
			} else {
				if patternMatched {
""", """			if err != nil {
				// error looking for a match
				return nil, nil, err
			}
			{
				if patternMatched {
"""), ("""					if eachMap.Terminating {
						// stop the search if this was a terminating map
						terminated = eachMap.Terminating
						break
					}
""", """					if eachMap.Terminating {
						// stop the search if this was a terminating map
						terminated = true
						break
					}
"""))
ref("multirepo-consensus", "C23", R, ("""					var result *targetMatch
					for i, target := range matchedTargetGroups {
						// compare thresholds for each target info we found with the value stated for its mapping
						if len(target.repositories) >= eachMap.Threshold {
							// this target has enough repositories signed for it
							if result != nil {
								// it seems there's more than one target info matching the threshold for this mapping
								// it is a conflict since it's impossible to establish a consensus which of the found targets
								// we should actually trust, so we error out
								return nil, nil, fmt.Errorf("more than one target info matching the necessary threshold value")
							} else {
								// this is the first target we found matching the necessary threshold so save it
								result = &matchedTargetGroups[i]
							}
						}
					}
""", """					result, err := consensus(matchedTargetGroups, eachMap.Threshold)
					if err != nil {
						return nil, nil, err
					}
"""), end="""
// consensus returns the only group that reaches the threshold, if any
func consensus(groups []targetMatch, threshold int) (*targetMatch, error) {
	var result *targetMatch
	for i, target := range groups {
		if len(target.repositories) >= threshold {
			if result != nil {
				return nil, fmt.Errorf("more than one target info matching the necessary threshold value")
			}
			result = &groups[i]
		}
	}
	return result, nil
}
""")
ref("multirepo-init", "C24", R, ("""		// path of where each of the repository's metadata files will be persisted
		metadataDir := filepath.Join(client.Config.LocalMetadataDir, repoName)

		// location of where the target files will be downloaded (propagated to each client from the multi-repo config)
		// WARNING: Do note that using a single folder for storing targets from various repositories as it might lead to a conflict
		targetsDir := client.Config.LocalTargetsDir
		if len(client.Config.LocalTargetsDir) == 0 {
			// if it was not set, create a targets folder under each repository so there's no chance of conflict
			targetsDir = filepath.Join(metadataDir, "targets")
		}

		// ensure paths exist, doesn't do anything if caching is disabled
		err := client.Config.EnsurePathsExist()
		if err != nil {
			return err
		}

		// default config for a TUF Client
		cfg, err := config.New(repoURL[0], rootBytes) // support only one mirror for the time being
		if err != nil {
			return err
		}
		cfg.LocalMetadataDir = metadataDir
		cfg.LocalTargetsDir = targetsDir
		cfg.DisableLocalCache = client.Config.DisableLocalCache // propagate global cache policy
""", """		// ensure paths exist, doesn't do anything if caching is disabled
		if err := client.Config.EnsurePathsExist(); err != nil {
			return err
		}

		// default config for a TUF Client
		cfg, err := config.New(repoURL[0], rootBytes) // support only one mirror for the time being
		if err != nil {
			return err
		}
		cfg.DisableLocalCache = client.Config.DisableLocalCache // propagate global cache policy
		client.setFolders(cfg, repoName)
"""), end="""
// setFolders tells where the files of a repository are kept
func (client *MultiRepoClient) setFolders(cfg *config.UpdaterConfig, repoName string) {
	cfg.LocalMetadataDir = filepath.Join(client.Config.LocalMetadataDir, repoName)
	if cfg.LocalTargetsDir = client.Config.LocalTargetsDir; cfg.LocalTargetsDir == "" {
		cfg.LocalTargetsDir = filepath.Join(cfg.LocalMetadataDir, "targets")
	}
}
""")
ref("newconfig-helper", "C24", R, ("""	for _, mapping := range mapFile.Mapping {
		if mapping == nil {
			return nil, fmt.Errorf("failed to create multi-repository config: a mapping is null")
		}
		for _, repo := range mapping.Repositories {
			if _, ok := mapFile.Repositories[repo]; !ok {
				return nil, fmt.Errorf("mapping uses unknown repository - %s", repo)
			}
		}
	}
""", """	if err := mapFile.checkMappings(); err != nil {
		return nil, err
	}
"""), end="""
// checkMappings makes sure the mappings use only listed repositories
func (mapFile *MultiRepoMapType) checkMappings() error {
	for i := range mapFile.Mapping {
		if mapFile.Mapping[i] == nil {
			return fmt.Errorf("failed to create multi-repository config: a mapping is null")
		}
		for _, repo := range mapFile.Mapping[i].Repositories {
			if _, ok := mapFile.Repositories[repo]; !ok {
				return fmt.Errorf("mapping uses unknown repository - %s", repo)
			}
		}
	}
	return nil
}
""")
ref("fetcher-inline", "C17", F, ("""	if res.StatusCode == http.StatusNotFound || res.StatusCode == http.StatusForbidden || res.StatusCode != http.StatusOK {
""", """	if res.StatusCode != http.StatusOK {
"""), ("""	length = int64(len(data))
	if length > maxLength {
""", """	if length = int64(len(data)); length > maxLength {
"""))
ref("lengthhashes-swap", "C09 C10", M, ("""func (f *TargetFiles) VerifyLengthHashes(data []byte) error {
	err := verifyHashes(data, f.Hashes)
	if err != nil {
		return err
	}
	err = verifyLength(data, f.Length)
	if err != nil {
		return err
	}
	return nil
}""", """func (f *TargetFiles) VerifyLengthHashes(data []byte) error {
	if err := verifyHashes(data, f.Hashes); err != nil {
		return err
	}
	return verifyLength(data, f.Length)
}"""))
ref("bins-loop", "C12", M, ("""	for binNumber := 0; binNumber < numberOfBins; binNumber++ {
		suffix := fmt.Sprintf("%0*x", suffixLen, binNumber)
		res = append(res, fmt.Sprintf("%s-%s", role.NamePrefix, suffix))
	}
	return res
""", """	binNumber := 0
	for binNumber < numberOfBins {
		name := fmt.Sprintf("%s-%s", role.NamePrefix, fmt.Sprintf("%0*x", suffixLen, binNumber))
		res = append(res, name)
		binNumber++
	}
	return res
"""))
ref("encode-helper", "C20", MA, *[("""	dict := map[string]any{}
	if len(%s.UnrecognizedFields) != 0 {
		copyMapValues(%s.UnrecognizedFields, dict)
	}
""" % (x, x), "	dict := withUnrecognized(%s.UnrecognizedFields)\n" % x) for x in "signed key meta s kv role d".split()], end="""
// withUnrecognized returns a new dictionary with the given members
func withUnrecognized(fields map[string]any) map[string]any {
	res := make(map[string]any, len(fields))
	copyMapValues(fields, res)
	return res
}
""")
def _decoders(repl):
    import re
    out = []
    for b in re.findall(r"\tvar dict map\[string\]any\n\tif err := json.Unmarshal\(data, &dict\); err != nil \{\n\t\treturn err\n\t\}\n(?:\tdelete\(dict, \"\w+\"\)\n)+\t\w+\.UnrecognizedFields = dict\n\treturn nil\n", open("/repo/" + MA).read()):
        out.append((b, repl(re.findall(r'delete\(dict, ("\w+")\)', b), re.search(r"\t(\w+)\.Unrec", b).group(1))))
    return sorted(set(out))
ref("decode-helper", "C20 C06", MA, *_decoders(lambda names, v: """	fields, err := unrecognizedIn(data, %s)
	if err != nil {
		return err
	}
	%s.UnrecognizedFields = fields
	return nil
""" % (", ".join(names), v)), end="""
// unrecognizedIn decodes the object and returns its members other than the recognized ones
func unrecognizedIn(data []byte, recognized ...string) (map[string]any, error) {
	var dict map[string]any
	if err := json.Unmarshal(data, &dict); err != nil {
		return nil, err
	}
	for _, name := range recognized {
		delete(dict, name)
	}
	return dict, nil
}
""")
ref("decode-loop", "C20", MA, *_decoders(lambda names, v: """	var dict map[string]any
	if err := json.Unmarshal(data, &dict); err != nil {
		return err
	}
	for _, name := range []string{%s} {
		delete(dict, name)
	}
	%s.UnrecognizedFields = dict
	return nil
""" % (", ".join(names), v)))
ref("encode-literal", "C20", MA, ("""	dict := map[string]any{}
	if len(key.UnrecognizedFields) != 0 {
		copyMapValues(key.UnrecognizedFields, dict)
	}
	dict["keytype"] = key.Type
	dict["scheme"] = key.Scheme
	dict["keyval"] = key.Value
	return json.Marshal(dict)
""", """	dict := map[string]any{"keytype": key.Type, "scheme": key.Scheme, "keyval": key.Value}
	for name, value := range key.UnrecognizedFields {
		if _, ok := dict[name]; !ok {
			dict[name] = value
		}
	}
	return json.Marshal(dict)
"""), ("""	// make sure we have only one of the two (per spec)
	if role.Paths != nil && role.PathHashPrefixes != nil {
		return nil, ErrValue{Msg: "failed to marshal: not allowed to have both \\"paths\\" and \\"path_hash_prefixes\\" present"}
	}
	if role.Paths != nil {
		dict["paths"] = role.Paths
	} else if role.PathHashPrefixes != nil {
		dict["path_hash_prefixes"] = role.PathHashPrefixes
	}
""", """	switch {
	// make sure we have only one of the two (per spec)
	case role.Paths != nil && role.PathHashPrefixes != nil:
		return nil, ErrValue{Msg: "failed to marshal: not allowed to have both \\"paths\\" and \\"path_hash_prefixes\\" present"}
	case role.PathHashPrefixes != nil:
		dict["path_hash_prefixes"] = role.PathHashPrefixes
	case role.Paths != nil:
		dict["paths"] = role.Paths
	}
"""), ("""	if signed.Length != 0 {
		dict["length"] = signed.Length
	}
	if len(signed.Hashes) != 0 {
		dict["hashes"] = signed.Hashes
	}
	dict["version"] = signed.Version
""", """	dict["version"] = signed.Version
	if len(signed.Hashes) > 0 {
		dict["hashes"] = signed.Hashes
	}
	if length := signed.Length; length != 0 {
		dict["length"] = length
	}
"""))
_CH = """			childRolesToVisit := []roleParentTuple{}
			// note that this may be a slow operation if there are many
			// delegated roles
			roles := targets.Signed.Delegations.GetRolesForTarget(targetFilePath)
			for _, child := range rolesInOrder(targets.Signed.Delegations, roles) {
				terminating := roles[child]
				log.Info("Adding child role", "role", child)
				childRolesToVisit = append(childRolesToVisit, roleParentTuple{Role: child, Parent: delegation.Role})
				if terminating {
					log.Info("Not backtracking to other roles")
					delegationsToVisit = []roleParentTuple{}
					break
				}
			}
"""
ref("walk-children-helper", "C13", U, (_CH, """			childRolesToVisit, last := childRoles(targets.Signed.Delegations, targetFilePath, delegation.Role)
			if last {
				log.Info("Not backtracking to other roles")
				delegationsToVisit = []roleParentTuple{}
			}
"""), end="""
// childRoles returns the roles to visit for the target, up to the first terminating one, and whether there is one
func childRoles(delegations *metadata.Delegations, targetFilePath, parent string) ([]roleParentTuple, bool) {
	children := []roleParentTuple{}
	roles := delegations.GetRolesForTarget(targetFilePath)
	for _, child := range rolesInOrder(delegations, roles) {
		children = append(children, roleParentTuple{Role: child, Parent: parent})
		if roles[child] {
			return children, true
		}
	}
	return children, false
}
""")
ref("walk-push-loop", "C13", U, ("""			reverseSlice(childRolesToVisit)
			delegationsToVisit = append(delegationsToVisit, childRolesToVisit...)
""", """			for i := len(childRolesToVisit) - 1; i >= 0; i-- {
				delegationsToVisit = append(delegationsToVisit, childRolesToVisit[i])
			}
"""))
ref("walk-reorder", "C13 C14", U, ("""		_, ok := visitedRoleNames[delegation.Role]
		if ok {
""", """		if visitedRoleNames[delegation.Role] {
"""), ("""		target, ok := targets.Signed.Targets[targetFilePath]
		if ok {
			log.Info("Found target in current role", "role", delegation.Role)
			return target, nil
		}
		// after pre-order check, add current role to set of visited roles
		visitedRoleNames[delegation.Role] = true
		if targets.Signed.Delegations != nil {
""", """		visitedRoleNames[delegation.Role] = true
		if target, ok := targets.Signed.Targets[targetFilePath]; ok {
			log.Info("Found target in current role", "role", delegation.Role)
			return target, nil
		}
		if delegations := targets.Signed.Delegations; delegations != nil {
"""), ("targets.Signed.Delegations.GetRolesForTarget(targetFilePath)", "delegations.GetRolesForTarget(targetFilePath)"),
 ("rolesInOrder(targets.Signed.Delegations, roles)", "rolesInOrder(delegations, roles)"),
 ("	for len(visitedRoleNames) <= update.cfg.MaxDelegations && len(delegationsToVisit) > 0 {", "	for {\n		if len(delegationsToVisit) == 0 || len(visitedRoleNames) > update.cfg.MaxDelegations {\n			break\n		}"))
