// Contracts of the helpers of the broker (gen.broker.go).

func kafka.matchVersion(apiKey, minVersion, maxVersion)
  ensures[C12] highest: result1 == nil ==> result0 <= apiKey.MaxVersion && result0 <= maxVersion && (result0 == apiKey.MaxVersion || result0 == maxVersion) && result0 >= minVersion && result0 >= apiKey.MinVersion
  ensures[C12] disjoint: result1 != nil ==> apiKey.MaxVersion < minVersion || apiKey.MaxVersion < apiKey.MinVersion || maxVersion < minVersion || maxVersion < apiKey.MinVersion
